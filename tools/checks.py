NA={}
W="Exhaustive within the stated bounds on the real graph and processor driven synchronously; node behaviour is represented by instrumented units with exactly predictable integer-valued output. "
CHECKS.update({
"G01":(T,W+"All edit sequences up to the bound over the alphabet, three commit placements, output compared sample by sample with the reference model."),
"G02":(T,W+"Feedback-heavy alphabets including self feedback and parameter paths; acceptance of every connection and one-block delay compared with the model."),
"G03":(T,W+"Every invalid argument at every edit entry point in several graph states; error kind, structure before/after and output compared."),
"G04":(T,W+"All placements of commits and blocks between edits; per-node frame counters, initialisation and drops compared with the model."),
"G10":(T,W+"Parameter connection/disconnection/free/set sequences; every frame's parameter value is visible in the output."),
"G14":(T,W+"Inspection after every commit expanded and compared with the model, lookup and handles checked by controlling the nodes."),
"G16":(T,W+"Node count after every commit bounded by what the connections need; all short cycles repeated."),
})
C="Real GraphGen/Graph/ring-buffer code under a controlled scheduler (every atomic access and lock is a scheduling point, sequentially consistent memory); all schedules up to the stated preemption bound. "
TS="systematic schedule exploration of the real code (preemption bounded)"
CHECKS.update({
"G05":(TS,C+"Drops, use after free (poisoned quarantine), leaks and thread of every drop checked on every schedule, with graph/processor dropped in any order."),
"G06":(TS,C+"Every block's output must be exactly one committed version, monotone, and at least the last commit that returned."),
})
CHECKS.update({
"G07":(T,"The allocator and lock shims count every allocation, deallocation and lock taken inside AudioProcessor::run over all bounded histories of edits, commits, parameter changes (timed, tokened), waiting lists and drops."),
"G08":(T,"All bounded sequences of sends through every entry point, times on and around block borders, commits, removals and blocks; each receipt (value, frame, order) compared with a reference schedule. A concurrent space explores sends against blocks under the scheduler."),
"G09":(T,"All bounded sequences of tokened and untokened sends to two nodes, activations, commits and blocks; receipts compared with a reference."),
"G13":(T,"Product of sample rates, block sizes, channel counts and entry points over several blocks on the real processor; the clock over up to 2^33 frames; readers of the clock against the audio thread under the scheduler."),
})
CHECKS.update({
"G11":(T,"All bounded histories of units reporting done (with each Done action) at each frame, connections, commits and blocks; removals, reconnections and outputs compared with the model."),
"G12":(T,W+"Subgraphs nested up to three deep, made in each possible way, with edits, commits, drops and removals at every level interleaved with blocks; output, frame counters and drops compared with the contents inlined."),
})
P="Exhaustive product of boundary values against an independent exact reference. "
CHECKS.update({
"P01":(T,P+"All pairs and conversions on a grid of boundary Seconds, Beats and sample counts at all supported rates, compared with 128-bit integer arithmetic."),
"P02":(T,P+"All block shapes, storages and nested views up to the bound; every read, write, iteration and metadata access compared with a frame map."),
})
CHECKS.update({
"P03":(T,P+"All declared parameter forms and wrappers crossed with every entry point, every index, name and value kind around the limits; setter calls, results and metadata compared with the declaration."),
})
CHECKS.update({
"G17":(T,"The CPAL and JACK crates are replaced by stand-ins (shims/cpal, shims/jack) whose device the explorer drives: every callback's buffer is compared, frame by frame, with the known output of the graph in the format of the device; words of start, stop and callbacks exactly; the real builder on both."),
})
R="Every case runs the real wrapper types around an instrumented unit, frame by frame against a reference model. "
CHECKS.update({
"U01":(T,R+"All stacks of up to three (thorough: four) of the twelve wrappers, all layouts of a block in parts or single frames, all sequences of changes before each block, and all ways to leave out frames of blocks."),
"U02":(T,R+"All ordered sequences of delayed and undelayed changes within a block and over several blocks, capacities, inner wrappers and layouts."),
"U03":(T,R+"All sequences of targets and smoothing settings over several blocks at both rates, layouts and block sizes; values also judged directly for range, monotonicity and arrival."),
})
D="Every case runs the real units frame by frame or in blocks against an independent reference model. "
CHECKS.update({
"U04":(T,"Every library unit and wrapper with all ways to cut a stretch of frames into blocks, partial blocks and single frames, and parameter changes at the cuts: output bits, done reports, and frames outside of the part compared with processing frame by frame."),
"U05":(T,D+"All operations, channel counts, layouts and types over pairs of boundary operand values."),
"D01":(T,D+"All sequences of triggers, jumps and changes of times for all small settings of times and shapes; also judged directly for monotonicity, range and done."),
"D02":(T,D+"All maximum and requested delays on a grid and all sequences of delay changes, frames and blocks."),
"D03":(T,D+"All small buffers and sequences of rate, loop, start, duration, end and restart changes; every read position around and beyond the buffer."),
"D04":(T,D+"Grids of frequencies and sample rates crossed with all sequences of frequency, phase and other changes; all wavetable phase steps; seeds of noise."),
"D05":(T,D+"Grid of filter types, cutoffs, Q and gains (response measured at zero, cutoff and Nyquist), and all sequences of changes while running."),
})
CHECKS.update({
"G15":(T,"All sequences of edits made with the graph edit interface (single, tuple and array handles, named and numbered channels, feedback, arithmetic, mixed with the plain calls) up to a depth; after each the output, connections and errors are compared with a model."),
"L01":(TS,"Senders and the receiver run as threads under the controlled scheduler (every interleaving of the accesses to the channels up to a preemption bound); all words of sends and polls exactly; the units of a graph logging under all lengths and polls."),
})
