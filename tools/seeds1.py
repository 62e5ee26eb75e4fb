GR='knaster_graph/src/graph.rs'; GG='knaster_graph/src/graph_gen.rs'; BA='knaster_graph/src/buffer_allocator.rs'
SEEDS=[
("g01-free-two-outputs","G01",[(GR,"""                        if source == node_key {
                            self.output_edges[i] = None;
                        } else {""","""                        if source == node_key {
                            self.output_edges[i] = None;
                            break;
                        } else {""")],
 "a node connected to two graph outputs is freed and the graph committed and run","only the first of the graph outputs fed by a freed node is disconnected",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U2>(opts(8));
    let b = g.edit(|g| { let b = g.push(U01::new(7.0, 0.0)); b.id() });
    let a = g.edit(|g| { let a = g.push(U01::new(3.0, 0.0)); a.out([0, 0]).to_graph_out(); a.id() });
    p.run_without_inputs();
    g.edit(|g| { g.free_node(a).unwrap(); });
    p.run_without_inputs();
    g.edit(|_| {});
    g.edit(|g| { let c = g.push(U01::new(5.0, 0.0)); c.to_graph_out_channels(0); });
    p.run_without_inputs();
    let o = p.output_block();
    assert_eq!((o.read(0, 3), o.read(1, 3)), (5.0, 0.0));
    let _ = b;
"""),
("g02-feedback-replace-adds","G02",[(GR,"self.connect_nodes_internal(source, sink, so_chan, si_chan, false, true)?;","self.connect_nodes_internal(source, sink, so_chan, si_chan, true, true)?;")],
 "a replacing feedback connection to an input that already has a source","the replacing feedback connection is added to the existing sources",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(8));
    g.edit(|g| {
        let a = g.push(U01::new(3.0, 0.0));
        let b = g.push(U01::new(100.0, 0.0));
        let s = g.push(U11::new(0.0, 0.0));
        a.to(s);
        b.to_feedback_replace(s);
        s.to_graph_out();
    });
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 3), 0.0);
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 3), 100.0);
"""),
("g10-param-source-order","G10",[(GR,"""            if !found_unvisited {
                let param_input_edges""","""            if !found_unvisited && input_edges.iter().all(|e| e.is_none()) {
                let param_input_edges""")],
 "a node with both an audio input and an audio-rate parameter connection, whose parameter source was pushed later",
 "the source of a parameter connection is only ordered before its destination if the destination has no audio input; otherwise the parameter follows the source of the previous block or stale data",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    g.edit(|g| {
        let a = g.push(U01::new(0.0, 0.0));
        let s = g.push(U11::new(0.0, 0.0).ar_params());
        let m = g.push(U01::new(10.0, 1.0));
        a.to(s);
        s.to_graph_out();
        s.link("value", m);
    });
    for b in 0..3 {
        p.run_without_inputs();
        for f in 0..4 {
            assert_eq!(p.output_block().read(0, f), 10.0 + (b * 4 + f) as f64);
        }
    }
"""),
("g06-one-update-per-block","G06",[(GG,"let num_new_task_data = self.new_task_data_consumer.slots();","let num_new_task_data = self.new_task_data_consumer.slots().min(2);")],
 "three or more commits between two blocks","at most two pending commits are applied per block, so a block plays an outdated version",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    for v in 1..=3 {
        g.edit(|g| { g.push(U01::new(v as f64, 0.0)).to_graph_out_replace(); });
    }
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 3.0);
"""),
("g03-output-channel-bound","G03",[(GR,"""        if source_channel >= nodes[source.key()].data.outputs {
            return Err(GraphError::OutputOutOfBounds(source_channel));
        }
        self.connect_to_output_internal(""","""        if source_channel > nodes[source.key()].data.outputs {
            return Err(GraphError::OutputOutOfBounds(source_channel));
        }
        self.connect_to_output_internal(""")],
 "connecting the channel one past the last output channel of a node to a graph output","the out of range channel is accepted and makes the commit panic",
"""
    let (mut g, mut p, _l) = AudioProcessor::<f64>::new::<U0, U1>(opts(4));
    let a = g.edit(|g| g.push(U01::new(3.0, 0.0)).id());
    p.run_without_inputs();
    assert!(matches!(g.connect2(a, 1, 0, NodeOrGraph::Graph), Err(GraphError::OutputOutOfBounds(1))));
"""),
("g14-graph-input-index","G14",[(GR,"""                            NodeKeyOrGraph::Node(key) => EdgeSource::Node(key),
                            NodeKeyOrGraph::Graph => EdgeSource::Graph,
                        },
                        from_index: edge.channel_in_source,
                        to_index: input_channel_index as u16,""","""                            NodeKeyOrGraph::Node(key) => EdgeSource::Node(key),
                            NodeKeyOrGraph::Graph => EdgeSource::Graph,
                        },
                        from_index: match edge.source {
                            NodeKeyOrGraph::Node(_) => edge.channel_in_source,
                            NodeKeyOrGraph::Graph => input_channel_index as u16,
                        },
                        to_index: input_channel_index as u16,""")],
 "a graph input connected to a node input with a different channel index, then inspected","the inspection reports the wrong graph input channel",
"""
    let (mut g, _p, _l) = AudioProcessor::<f64>::new::<U2, U1>(opts(4));
    g.edit(|g| { let s = g.push(U11::new(0.0, 0.0)); g.from_inputs(1).unwrap().to(s); s.to_graph_out(); });
    let i = g.inspection();
    assert_eq!((i.nodes[0].input_edges[0].from_index, i.nodes[0].input_edges[0].to_index), (1, 0));
"""),
]
