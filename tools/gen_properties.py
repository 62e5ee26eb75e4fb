#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One entry per property; kept as a script so that ids/anchors stay consistent.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
G="knaster_graph/src/"; D="knaster_core_dsp/src/"; C="knaster_core/src/"; R="knaster_primitives/src/"
p("G01","The audio a graph outputs is exactly what its connection diagram computes",
"After every commit, each block output by a graph equals, sample for sample, the evaluation of the connection diagram left by the accepted edits: every input or graph output receives the sum of the sources connected additively since the last replacing connection, a replaced, disconnected or freed source contributes nothing, and an unconnected input or output is silence. This holds however nodes, channels, fan-out, zero-channel nodes and nodes feeding both other nodes and graph outputs are combined, and whatever was connected before. No accepted edit sequence makes an edit, a commit or the audio processing panic.",
["histories","programs"],"all sequences of push/connect/replace/disconnect/free/commit edits up to a bounded length over small sets of nodes with 0-2 inputs and 0-2 outputs, from several starting graphs, with every placement of commits",
"The tests build about a dozen fixed graphs; ordering, buffer reuse and automatic summing nodes depend on the whole edit history and graph shape.",
[G+"graph.rs",G+"buffer_allocator.rs",G+"task.rs",G+"graph_gen.rs",G+"node.rs",G+"block.rs"],
[("edge bookkeeping and automatic adders",G+"graph.rs connect_*_internal, disconnect_*, free_node_from_key"),("ordering",G+"graph.rs calculate_node_order"),("buffer reuse",G+"buffer_allocator.rs"),("task execution",G+"graph_gen.rs process_block")],
["AudioProcessor::output_block after each run"])
p("G02","Feedback connections delay by exactly one block; only direct cycles are refused",
"A signal connected through a feedback connection reaches its destination exactly one block later than it was produced, with silence in the first block, in whatever order the connected nodes run and whatever else is edited meanwhile, including a node feeding back to itself. Feedback connections are never refused as circular and never influence which direct connections are accepted; a direct connection (audio or parameter) is refused with the circular-connection error exactly when a direct path already leads from its destination to its source.",
["histories","programs"],"all bounded sequences of direct, feedback and parameter connections, disconnections and frees over up to four nodes, each followed by several blocks",
"One test covers a single feedback pair in one order; the delay depends on node order and on which edits happened around it.",
[G+"graph.rs"],[("feedback node pair",G+"graph.rs FeedbackSink/FeedbackSource, new_feedback_nodes"),("cycle check",G+"graph.rs has_path")],
["AudioProcessor::output_block","the Result of each connection call"])
p("G03","Invalid edits are refused with the matching error and change nothing",
"Every edit naming a node that was freed, a node of another graph, an out-of-range channel of a node or of the graph, or an unknown parameter returns the error naming that problem, without panicking. A refused edit leaves the graph exactly as it was: its structure, its output and its other nodes are the same as if the call had not been made.",
["inputs","histories"],"every edit entry point crossed with every kind of invalid argument (foreign/stale node as source or sink, channel at and beyond each limit, parameter index or name out of range), in several graph states",
"The tests only use valid arguments.",
[G+"graph.rs",G+"graph_edit.rs"],[("argument checks",G+"graph.rs connect_nodes_internal, connect_node_to_output, connect_input_to_node, connect_node_to_parameter, disconnect_*, set"),("free",G+"graph_edit.rs free_node")],
["returned GraphError variants","inspection and output before and after"])
p("G04","Edits never reset, skip or repeat a node that stays in the graph",
"A node that is in the graph before and after a commit keeps its internal state and is processed exactly once in every block, connected to an output or not, no matter how many commits happened between two blocks and which other nodes were added, removed or reordered. Newly pushed nodes start processing, initialised once with the graph's sample rate and block size, in the first block after their commit; removed nodes are not processed in any block after theirs.",
["histories"],"all bounded histories of push/connect/free edits with one to three commits between blocks",
"Ownership of running nodes moves between task lists by position; only histories with reordering and several pending commits exercise it.",
[G+"graph.rs",G+"node.rs",G+"task.rs",G+"graph_gen.rs"],[("unit moves between task lists",G+"task.rs apply_self_on_audio_thread"),("task generation",G+"node.rs make_task")],
["per-node counters of init/process/drop in instrumented units","output"])
p("G05","Nodes are destroyed exactly once, off the audio thread, after their last use",
"Under every interleaving of graph edits on the control thread with block processing on the audio thread, each node pushed is dropped exactly once, never by the audio thread and never before the audio thread has stopped being able to process it. After a node's removal has been applied and later commits have run, it and everything created only to support it is really freed; dropping the graph and the processor in any order frees every remaining node exactly once.",
["schedules","histories"],"all interleavings (up to a preemption bound) of the control thread's steps in edits with free and commit and the audio thread's steps in processing blocks; all orders of dropping the graph and processor",
"Tests run both sides on one thread in one order.",
[G+"graph.rs",G+"graph_gen.rs",G+"task.rs"],[("applied flag",G+"task.rs apply_self_on_audio_thread, graph.rs free_old"),("return ring",G+"graph_gen.rs process_block")],
["drop/process events of instrumented units with thread identity"],"yield points at shared-state accesses (cfg knaster_verif)")
p("G06","Each block plays exactly one committed version of the graph, in commit order",
"Under every interleaving of commits with block processing, every block's output is the complete output of exactly one committed version of the graph, never a mixture; versions never go backwards, and a block that starts after a commit returned plays that commit's version or a later one. Commits issued while the audio thread is not running all take effect at the next block, without loss or panic as long as the configured ring capacity is not exceeded.",
["schedules"],"all interleavings up to a preemption bound of one control thread performing several commits and one audio thread processing several blocks",
"Tests never run both sides concurrently.",
[G+"graph.rs",G+"graph_gen.rs"],[("task-data ring",G+"graph.rs send_updated_tasks, graph_gen.rs process_block")],
["output blocks labelled with versions"],"yield points at shared-state accesses (cfg knaster_verif)")
p("G07","Processing a block never allocates, frees or blocks",
"While a block is being processed no memory is allocated or freed and no lock is taken by the library on the audio thread, whatever commits, node removals, feedback, subgraphs, parameter changes (due, waiting, timed or tokened) and self-freeing nodes are pending, as long as the configured channel capacities are not exceeded.",
["histories"],"all bounded histories of edits, commits, parameter changes and blocks over the graph operations, counted by an instrumented allocator on the audio side",
"The allocation guard is an optional feature that no test exercises over edits.",
[G+"graph_gen.rs",G+"task.rs",G+"processor.rs"],[("preallocated queues",G+"graph.rs Graph::new, graph_gen.rs")],
["allocator calls made inside AudioProcessor::run"])
p("G08","Parameter changes are applied exactly once, in order, at the time requested",
"Every successfully sent parameter change to a live node is applied exactly once, with its value: untimed or already-due changes in the next block processed, a change scheduled at an absolute time in the block containing that frame and, with sample-accurate timing enabled, exactly at that frame, and a change scheduled after a duration that many frames after the start of the block that receives it. Changes sent to the same node for the same moment are applied in the order sent, changes addressed to removed nodes affect nothing, and sending to a full channel or freed graph returns an error instead of losing the change silently.",
["histories","inputs"],"all bounded sequences of sends (handle, graph and multi-set entry points; untimed, absolute and relative times on and around block borders; existing, unknown and removed nodes) interleaved with blocks and commits",
"Tests check a few individual timings; ordering, boundary frames and interaction of delayed with immediate changes need the combinations.",
[G+"graph_gen.rs",G+"scheduling.rs",G+"handle.rs",G+"graph.rs"],[("event queue and waiting list",G+"graph_gen.rs process_block, apply_parameter_change"),("due time",G+"scheduling.rs Time::to_samples_until_due")],
["values and frames at which an instrumented unit receives changes","send results"])
p("G09","Changes carrying a token wait for it, then all take effect in the same block",
"A parameter change carrying a scheduling token is not applied in any block before the token is activated. Changes sharing a token activated between two blocks are all applied in the first block after the activation, exactly once and in the order sent; changes without a token and with other tokens are not held up.",
["histories"],"all bounded sequences of tokened and untokened, timed and untimed sends to two nodes, token activations, and blocks",
"No test uses tokens.",
[G+"scheduling.rs",G+"graph_gen.rs"],[("token check",G+"graph_gen.rs apply_parameter_change")],
["values received by instrumented units per block"])
p("G10","Audio-rate parameter connections drive the parameter sample by sample",
"While a node output is connected to a parameter, every frame is processed with the parameter set to the source's sample of that same frame, the sum of the sources when several are connected additively, or only the new one after a replacing connection, and the source always runs first. The connection takes effect at the next commit even if nothing else changed, survives unrelated edits, and ends when its source or destination is freed or its source output is disconnected, after which ordinary parameter changes apply again.",
["histories"],"all bounded sequences of parameter connections, replacements, disconnections, frees, ordinary sets and commits over small graphs",
"Two tests connect a parameter once in a fresh graph.",
[G+"graph.rs",G+"task.rs",D+"wrappers_core/audio_rate.rs"],[("parameter edges",G+"graph.rs connect_node_to_parameter, generate_ar_parameter_changes"),("wrapper",D+"wrappers_core/audio_rate.rs")],
["parameter values seen per frame by an instrumented unit"])
p("G11","Done actions free the right thing at the right time, and nothing else",
"When a unit pushed with a done action reports being done, the action set last is performed: nothing, removal of exactly that node at the next commit, or termination of the graph it is in, which outputs zeros from the reported frame on and stays silent, is not processed further, and is removed from its parent at the parent's next commit. Done reports of one node never affect other nodes, and units that never report done are never removed.",
["histories","inputs"],"all combinations of done actions, done frames, nesting, order of several reporting nodes, and action changes, over bounded numbers of blocks and commits",
"Tests cover one self-freeing node.",
[G+"wrappers_graph/done.rs",C+"ugen.rs",G+"graph_gen.rs",G+"graph.rs"],[("flags",C+"ugen.rs UGenFlags"),("done wrapper",G+"wrappers_graph/done.rs process_flags"),("graph termination",G+"graph_gen.rs process_block")],
["output, inspection node sets, process counts"])
p("G12","A subgraph behaves exactly like its contents inlined in the parent",
"A graph used as a node of another graph outputs in every block what its contents would output if they were connected directly in the parent in its place, for all input and output channels, nesting and pass-through connections, whether its contents are set up in its initial callback or edited and committed later, before or after the parent's own commits. Edits, parameter changes, removal of the subgraph's node and dropping the subgraph's handle take effect independently for parent and child.",
["histories","programs"],"all bounded sequences of parent and child edits, commits, parameter changes and blocks, for several channel configurations and nesting depth up to three",
"Tests cover two or three fixed nestings.",
[G+"graph.rs",G+"graph_gen.rs"],[("graph as unit",G+"graph_gen.rs process_block"),("creation",G+"graph.rs subgraph_init")],
["parent output compared with an inlined graph's output"])
p("G13","The processor feeds inputs, clocks and blocks through unchanged",
"Each run processes exactly one block: graph input channel c carries exactly the samples passed for channel c in that call, each unit is told the frame number of the block's first frame, the block size and sample rate, and the clock readable from any thread equals the number of frames completed so far divided by the sample rate, never decreasing, and exact at every sample rate including those that do not divide the time unit. Handles, the graph and inspection all read the same clock.",
["inputs","histories"],"all small combinations of channel counts, block sizes and sample rates including awkward ones, over many blocks and runs by either entry point",
"Tests use one or two block sizes and sample rates and never check the clock.",
[G+"processor.rs",G+"scheduling.rs",C+"ugen.rs"],[("runner",G+"processor.rs run, run_raw_ptr_inputs"),("clock",G+"scheduling.rs SharedFrameClock")],
["context seen by instrumented units","SharedFrameClock::get"])
p("G14","Inspection describes the running graph faithfully",
"At any point after a commit, inspection lists exactly the live nodes in an order in which every node comes after its direct sources, with their true names, channel and parameter metadata, and exactly the input and graph output connections in force, such that evaluating the inspected structure reproduces the audio; its dot description has the same nodes and connections. Node lookup by id or name and the handles it yields agree with it, and control the same nodes.",
["histories"],"all bounded edit histories of the graph operations, inspecting after each commit",
"Tests only compare the number of nodes.",
[G+"inspection.rs",G+"graph.rs"],[("inspection",G+"graph.rs inspection"),("handles",G+"inspection.rs node_handles")],
["GraphInspection contents against a reference structure and the audio"])
p("G15","Handle arithmetic and routing build the expression they spell",
"The graph-edit handle operators and routing methods (addition, subtraction, multiplication, division with handles or constants on either side, channel selection, stacking, replacing and feedback routing to nodes, channels and graph outputs) build a graph whose output equals the spelled expression per channel, with operand order preserved. The static and dynamic handles give the same result.",
["programs"],"all expression trees up to a bounded depth over handles and constants with all operators, in static and dynamic form, and all routing methods over small channel sets",
"Tests evaluate a handful of expressions, mostly commutative ones.",
[G+"graph_edit.rs"],[("operators",G+"graph_edit.rs impl Add/Sub/Mul/Div for SH and DH"),("routing",G+"graph_edit.rs to, to_replace, to_feedback, to_graph_out*, out, stacking")],
["AudioProcessor::output_block"])
p("G16","Internally created helper nodes never accumulate",
"Helper nodes that the graph creates for summing and feedback exist only while an existing connection needs them: after any edit history, once pending commits have been applied, the number of nodes equals the number of live user nodes plus what is needed for the connections currently in force. Repeating any connect/disconnect, connect/replace or connect/free cycle forever therefore leaves the node count bounded.",
["histories"],"all bounded edit histories followed by settling, and all bounded cycles repeated",
"No test counts helper nodes after disconnecting.",
[G+"graph.rs"],[("automatic removal",G+"graph.rs evaluate_if_node_should_be_removed, free_old")],
["inspection node lists"])
p("G17","Audio backends play exactly what the graph computes",
"A started backend gives the device exactly the samples of the processor's output blocks, per channel and in order, without gap, repetition or mixing, however many frames the device asks for per callback, converted to the device's sample format (for JACK limited to -1 to 1 and never NaN); inputs of the device, where supported, reach the graph's inputs in the same block, and are silence otherwise. Starting a running backend is refused and leaves it running, a stopped one no longer processes and can be started again. The builder runs the graph at the sample rate and block size of the backend, whether given or the default one, and delivers log messages to the handler.",
["programs","histories","inputs"],"all sample formats, channel counts, block sizes and short sequences of callback lengths; all bounded sequences of starting, stopping and callbacks, for both backends; the builder with every kind of backend",
"No test starts a backend, as that needs a sound device.",
[G+"audio_backend/cpal.rs",G+"audio_backend/jack.rs",G+"audio_backend.rs","knaster/src/lib.rs"],[("callbacks",G+"audio_backend/cpal.rs run, jack.rs process"),("builder","knaster/src/lib.rs KnasterBuilder")],
["buffers handed to the device"])
p("U01","Wrappers are transparent except for what they add",
"Wrapping a unit leaves its channel counts, initialisation, processing (frame, block or partial block), state, done/removal reports and existing parameters (order, names, hints, immediate, sample-delayed and audio-rate control) unchanged except for the wrapper's stated effect, in any nesting order. A wrapper that adds a parameter appends exactly one, and controlling it by any means never disturbs or panics the inner unit.",
["programs","histories"],"all nestings up to depth three of the output-math, closure, smoothing, audio-rate, precise-timing and done wrappers around an instrumented unit, and all bounded sequences of operations on them",
"Tests check one stack of wrappers with one schedule.",
[D+"wrappers_core/math.rs",D+"wrappers_core/closure.rs",D+"wrappers_core/smooth_params.rs",D+"wrappers_core/audio_rate.rs",D+"wrappers_core/precise_timing.rs",G+"wrappers_graph/done.rs"],[("forwarding","each wrapper's UGen impl")],
["calls received by the instrumented inner unit and wrapper outputs"])
p("U02","Precise timing applies each change at exactly its frame",
"With the precise-timing wrapper, each change scheduled with a delay inside the block takes effect at exactly that frame and each undelayed change at the block's first frame, in the order given, as often as once per block slot, block after block, on the right parameter and with its own smoothing setting. Output is otherwise identical to the unwrapped unit; changes beyond the declared capacity are reported and do not disturb the others.",
["histories","inputs"],"all schedules of up to a bounded number of changes with nondecreasing delays on one or two parameters over several blocks, all capacities, frame- and block-wise processing",
"Two tests use one increasing schedule in one block.",
[D+"wrappers_core/precise_timing.rs"],[("delayed changes",D+"wrappers_core/precise_timing.rs process_block, param_apply")],
["per-frame parameter values in the inner unit"])
p("U03","Smoothed parameters glide from the current value to exactly the target",
"With linear smoothing of duration T a float parameter moves in equal steps, monotonically and without leaving the range between its present value and the target, from the value in force to exactly the target, arriving within T (to one update step at its rate: every frame at audio rate, every block at block rate) and then staying there; with smoothing off or zero duration it changes at once. A new target or smoothing setting in mid-glide continues from the value reached, parameters do not influence each other, and non-float changes pass straight through.",
["histories","inputs"],"all bounded sequences of value and smoothing changes with several durations, at block and audio rate, over several blocks and partial blocks",
"One test checks one ramp.",
[D+"wrappers_core/smooth_params.rs"],[("ramps",D+"wrappers_core/smooth_params.rs process_block, param_apply")],
["values received by the inner unit"])
p("U04","How processing is cut into blocks never changes the samples",
"For every provided unit generator and wrapper, processing a stretch of frames one frame at a time, as one block, or cut into consecutive partial blocks of any sizes yields the same samples and the same done reports, and no processing touches frames outside the part requested. Two instances built and driven identically produce identical output, and all output stays finite for finite input in documented parameter ranges.",
["inputs","configurations"],"all compositions of a small number of frames into partial blocks, for every unit and a grid of constructor arguments, inputs and parameter changes at the cuts",
"Tests compare at most one block against single frames for a few units.",
[D+"ugens",D+"wrappers_core","knaster_airwindows/src/galactic.rs",C+"ugen.rs"],[("process/process_block pairs",D+"ugens/*.rs")],
["output samples"])
p("U05","Math units and panning compute their defining function per sample",
"Each math unit outputs per channel exactly its named operation of the corresponding inputs in operand order (sum, difference, product, quotient, power, square root, exponential and so on), the output-math wrappers likewise with their constant and current parameter value, the constant unit its value, and the closures exactly the closure. Panning keeps equal power: the squared gains sum to one with full left, centre and full right at -1, 0 and 1.",
["inputs"],"all units and wrappers over a grid of operand values including signed zeros, negatives and extremes, all channel counts provided, blockwise and framewise",
"Tests use one positive operand pair for some of the operations.",
[D+"ugens/math.rs",D+"ugens/util.rs",D+"ugens/pan.rs",D+"wrappers_core/math.rs",D+"wrappers_core/closure.rs",D+"ugens/closure.rs"],[("operations",D+"ugens/math.rs, wrappers_core/math.rs")],
["output samples"])
p("D01","Envelopes follow their breakpoints and report done once, at the right frame",
"An attack-sustain-release envelope rises monotonically from 0 to 1 within its attack time, holds 1 until released, falls monotonically to 0 within its release time and reports done exactly then; a breakpoint envelope passes through its points at their times, scaled by its time scale, starts over when looping and otherwise holds its last point and reports done at the frame it ends. Output is always finite and within the range of its points, for zero-length segments, and for restart, release or stop triggers in any state and in any order.",
["histories","inputs"],"all bounded sequences of triggers, time changes and frames for all small settings of times and shapes",
"Tests check a few trigger sequences.",
[D+"ugens/envelopes.rs"],[("state machines",D+"ugens/envelopes.rs")],
["output samples and done reports"])
p("D02","Delay lines return exactly the sample written the set delay ago",
"The sample-delay, static and allpass-interpolated delays output their input delayed by exactly the requested number of frames (interpolated for fractional delays where supported), starting from silence, for every delay from the minimum to the maximum including the maximum itself, also after the delay is changed while running. Requests outside the supported range are limited to it rather than reading other memory, panicking or wrapping to another delay; clearing empties the line.",
["inputs","histories"],"all maximum/requested delay pairs on a small grid, all bounded sequences of delay changes and frames, frame- and blockwise, with partial blocks",
"Tests use one or two delay lengths.",
[D+"ugens/delay.rs"],[("ring buffers",D+"ugens/delay.rs")],
["output samples for an impulse and for distinct-valued input"])
p("D03","Buffer playback reads exactly the requested frames and nothing beyond",
"A buffer player outputs, per channel, exactly the buffer's samples from its start position for its duration, at the set rate, either looping seamlessly back to the start or stopping with silence and reporting done at the first frame after the end. It never reads outside the buffer for any rate, start, duration or length, including ones beyond the end, for one or several channels. A buffer made from samples, or loaded from or saved to a sound file, holds every one of them, with the file's channels and sample rate; removing its constant offset treats each channel by itself.",
["inputs","histories"],"all small buffers, start/duration/loop/rate settings and restart sequences, framewise and blockwise with partial blocks",
"One test plays one buffer forward.",
[D+"ugens/buffer.rs",D+"dsp/buffer.rs"],[("read position",D+"ugens/buffer.rs")],
["output samples and done reports"])
p("D04","Oscillators keep exact phase, range and frequency; noise stays in range",
"Every oscillator advances its phase by frequency over sample rate each frame, wrapping without drift or jumps across blocks, frequency changes and phase offsets, for any frequency from negative to beyond the sample rate where accepted, and outputs its waveform of that phase within its range without reading outside its table; a band-limited oscillator differs from its naive waveform only within a sample of a jump or bend, there by the polynomial correction of that jump or bend. A wavetable holds the shape or the sum of partials it was built from, of those that fit below its frequency limit. Noise generators stay within their stated range and are uncorrelated with block layout; random holds and ramps change at their frequency and only then.",
["inputs","histories"],"grids of frequencies, sample rates and phases crossed with bounded sequences of parameter changes, compared with a reference phase accumulator",
"Tests listen to a few frequencies and do not check phase continuity over changes.",
[D+"ugens/osc.rs",D+"ugens/polyblep.rs",D+"ugens/noise.rs",D+"dsp/wavetable.rs",D+"dsp/xorrng.rs"],[("phase accumulators",D+"ugens/osc.rs, dsp/wavetable.rs, ugens/polyblep.rs")],
["output samples"])
p("D05","Filters are stable and have their defining gains",
"For every accepted cutoff, resonance and gain the one-pole and state-variable filters are linear and stable, have the gain at zero, cutoff and Nyquist frequency that their type defines, and respond to parameter changes without blowing up or losing state; coefficients follow the last parameters set regardless of the order in which they were set. Filter instances are independent, per channel.",
["inputs","histories"],"a grid of filter types, cutoffs, Q and gains at several sample rates and all bounded orders of parameter changes, against a reference recurrence",
"Tests check one or two settings.",
[D+"ugens/onepole.rs",D+"ugens/svf.rs"],[("coefficients",D+"ugens/svf.rs, ugens/onepole.rs")],
["output samples"])
p("P01","Musical and clock time arithmetic is exact and totally ordered",
"Seconds and beats behave as exact rationals in their fixed subdivision: addition, subtraction, multiplication, comparison and conversion to and from floats, samples and fractions are exact or correctly rounded, carry between whole and fractional part, keep the fractional part in range, and saturate or report instead of wrapping where so named. Converting a whole number of samples to seconds and back is the identity for every supported sample rate.",
["inputs"],"all pairs from a grid of boundary values (zero, one tick, one tick below a whole, large values) for every operation, and all sample counts in ranges at every common and awkward sample rate, against 128-bit integer arithmetic",
"Tests check about twenty values.",
[R+"time.rs"],[("fixed-point arithmetic",R+"time.rs")],
["returned values"])
p("P02","Block views address exactly the frames and channels they describe",
"A block or partial view of a block, however nested and of whatever storage, reads and writes exactly the underlying channel and frame it describes, reports the right channel and frame counts, and iterates channels in order; reading back a written sample returns it and leaves all others untouched. Empty and single-frame views and zero-channel blocks are valid.",
["inputs"],"all block shapes up to three channels and eight frames, all nested partial views of them, all storages",
"Tests check a few fixed views.",
[R+"block.rs",G+"block.rs"],[("partial views",R+"block.rs PartialBlock*"),("raw blocks",G+"block.rs")],
["samples read through other views"])
p("P03","Declared parameters are addressable by index and name, and only those",
"For every unit with declared parameters, setting a parameter by index, by name, through a handle or directly reaches exactly the declared setter with the converted value, names and hints are reported in declaration order and length equal to the parameter count, and values of the wrong kind, unknown names and out-of-range indices are refused with an error and change nothing. Hints describe exactly what was declared or built, and the accepted range including its ends.",
["programs","inputs"],"all units in the library plus a set of declared test units covering the parameter forms, crossed with all indices, names and value kinds around the limits",
"The macro tests compile examples and check a few values.",
["knaster_macros/src/lib.rs",C+"parameters.rs",C+"parameters/types.rs",C+"ugen.rs",R+"parameters.rs"],[("dispatch","knaster_macros/src/lib.rs param_apply generation"),("checking",C+"ugen.rs UGen::param")],
["setter calls and returned results"])
p("L01","Audio-thread log messages arrive whole, in order and never corrupt each other",
"Every audio-thread log message that is accepted is delivered exactly once, complete, and in the order sent per sender, under every interleaving of senders and the receiver; when a channel is full a message is dropped whole without corrupting, merging with or losing other messages, and later messages get through again once there is room. Sending never blocks or allocates.",
["schedules","histories"],"all bounded interleavings of sends of messages of various lengths and receiver polls over one and two senders and small channel capacities",
"Tests send a few messages with ample capacity.",
[C+"log.rs"],[("log ring",C+"log.rs ArLogSender, ArLogReceiver")],
["messages delivered to the receiver"])
with open(__file__.rsplit('/',2)[0]+"/properties.jsonl","w") as f:
    for e in P:
        f.write(json.dumps(e)+"\n")
for e in P:
    assert len(e["title"])<=80,(e["id"],len(e["title"]))
    n=e["statement"].count(". ")+1
    if n>3: print(e["id"],n)
print(len(P))
