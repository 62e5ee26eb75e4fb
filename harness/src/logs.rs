//! L01: messages from the audio thread.
use crate::alloc;
use crate::common::*;
use crate::tu::*;
use knaster_core::log::*;
use knaster_core::typenum::*;
use knaster_core::{AudioCtx, Frame, ParameterHint, ParameterValue, Seconds, Size, UGen, UGenFlags, rt_log};
use knaster_core::numeric_array::NumericArray;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use mcsched::Outcome;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

type Item = (u8, u64);
fn item(m: &ArLogMessage) -> Item {
    match m {
        ArLogMessage::Str(s) => (1, s.len() as u64 + s.bytes().map(|b| b as u64 * 31).sum::<u64>()),
        ArLogMessage::Float(f) => (2, f.to_bits()),
        ArLogMessage::Unsigned(u) => (3, *u),
        ArLogMessage::Signed(i) => (4, *i as u64),
        ArLogMessage::Timestamp(s) => (5, s.to_secs_f64().to_bits()),
        ArLogMessage::End => (0, 0),
    }
}
const STRS: [&str; 4] = ["a", "bc", "def", ""];
/// Item `i` of message `m` of sender `s`
fn nth(s: usize, m: usize, i: usize) -> ArLogMessage {
    let id = (s * 10000 + m * 100 + i) as u64;
    match (m + i) % 5 {
        0 => ArLogMessage::Unsigned(id),
        1 => ArLogMessage::Float(id as f64 + 0.5),
        2 => ArLogMessage::Signed(-(id as i64) - 1),
        3 => ArLogMessage::Str(STRS[(s + m + i) % 4]),
        _ => ArLogMessage::Timestamp(Seconds::from_secs_f64(id as f64)),
    }
}
fn items(s: usize, m: usize, len: usize) -> Vec<Item> {
    (0..len).map(|i| item(&nth(s, m, i))).chain([(0, 0)]).collect()
}
/// Send a message of `len` items and the end, one way or the other
fn send(tx: &mut ArLogSender, s: usize, m: usize, len: usize) {
    let n = |i| nth(s, m, i);
    match len {
        0 => rt_log!(tx; ),
        1 => rt_log!(tx; n(0)),
        2 => rt_log!(tx; n(0), n(1)),
        3 => rt_log!(tx; n(0), n(1), n(2)),
        4 => rt_log!(tx; n(0), n(1), n(2), n(3)),
        5 => rt_log!(tx; n(0), n(1), n(2), n(3), n(4)),
        _ => tx.send_chain(&(0..len).map(n).chain([ArLogMessage::End]).collect::<Vec<_>>()),
    }
}
/// Receivers of one to three senders
enum Rx {
    A(ArLogReceiver<U1>),
    B(ArLogReceiver<U2>),
    C(ArLogReceiver<U3>),
}
impl Rx {
    fn new(caps: &[usize]) -> (Vec<ArLogSender>, Rx) {
        let (a, r) = ArLogReceiver::new().sender(caps[0]);
        let Some(c) = caps.get(1) else { return (vec![a], Rx::A(r)) };
        let (b, r) = r.sender(*c);
        let Some(c) = caps.get(2) else { return (vec![a, b], Rx::B(r)) };
        let (c, r) = r.sender(*c);
        (vec![a, b, c], Rx::C(r))
    }
    fn recv(&mut self, f: impl FnMut(&[ArLogMessage])) {
        match self {
            Rx::A(r) => r.recv(f),
            Rx::B(r) => r.recv(f),
            Rx::C(r) => r.recv(f),
        }
    }
}
/// What was received, split into messages
fn messages(v: &[Item]) -> (Vec<Vec<Item>>, Vec<Item>) {
    let mut out = vec![];
    let mut cur = vec![];
    for i in v {
        cur.push(*i);
        if *i == (0, 0) {
            out.push(std::mem::take(&mut cur));
        }
    }
    (out, cur)
}

// ---------------------------------------------------------------- schedules
#[derive(Clone, Copy, Debug, Default)]
struct Sent {
    s: usize,
    len: usize,
    /// items of this sender received by polls that had finished when the send started
    lo: usize,
    /// polls started when the send ended
    polls: usize,
}
#[derive(Default)]
struct Sh {
    sent: Vec<Sent>,
    done: Vec<usize>,
    recvd: Vec<Item>,
    polls_started: usize,
    /// received so far at the end of every poll
    after: Vec<usize>,
    /// how many messages of each sender were sent when each poll started
    before: Vec<Vec<usize>>,
    allocs: bool,
}
fn whose(v: &[Item], lens: &[Vec<usize>]) -> Result<Vec<(usize, usize)>, Fail> {
    // the messages received, in terms of sender and number (they are all different, by their numbers or by their lengths)
    let (ms, rest) = messages(v);
    check!(rest.is_empty(), "partial", "a part of a message was received: {rest:?} after {ms:?}");
    let mut next = vec![0; lens.len()];
    let mut out = vec![];
    'next: for m in ms {
        for s in 0..lens.len() {
            for k in next[s]..lens[s].len() {
                if items(s, k, lens[s][k]) == m {
                    next[s] = k + 1;
                    out.push((s, k));
                    continue 'next;
                }
            }
        }
        return fail("message", format!("received {m:?}, which is no message sent, received again, or out of order (so far {out:?})"));
    }
    Ok(out)
}
fn schedules(cap: usize, lens: &[Vec<usize>], polls: usize, bound: usize, rec: &mut Rec) -> Result<(), Fail> {
    if lens.iter().flatten().filter(|l| **l == 0).count() > 1 {
        // messages with nothing in them can't be told apart
        return Ok(());
    }
    let result: RefCell<Option<Fail>> = RefCell::new(None);
    let seen: RefCell<std::collections::HashSet<Vec<(usize, usize)>>> = Default::default();
    let (n, steps) = mcsched::explore(bound, || {
        let (txs, rx) = Rx::new(&vec![cap; lens.len()]);
        let sh = Rc::new(RefCell::new(Sh { done: vec![0; lens.len()], ..Default::default() }));
        let rx = Rc::new(RefCell::new(rx));
        let mut ts: Vec<Box<dyn FnOnce()>> = vec![];
        for (s, mut tx) in txs.into_iter().enumerate() {
            let (sh, lens) = (sh.clone(), &lens[s]);
            ts.push(Box::new(move || {
                for (m, len) in lens.iter().enumerate() {
                    let lo = sh.borrow().after.last().copied().unwrap_or(0);
                    let before = alloc::audio_counts();
                    on_audio(|| send(&mut tx, s, m, *len));
                    let after = alloc::audio_counts();
                    let mut h = sh.borrow_mut();
                    h.allocs |= before != after && *len < 6;
                    let polls = h.polls_started;
                    h.sent.push(Sent { s, len: *len, lo, polls });
                    h.done[s] += 1;
                }
            }));
        }
        let (rx2, sh2) = (rx.clone(), sh.clone());
        ts.push(Box::new(move || {
            for _ in 0..polls {
                {
                    let mut h = sh2.borrow_mut();
                    h.polls_started += 1;
                    let d = h.done.clone();
                    h.before.push(d);
                }
                let mut got = vec![];
                rx2.borrow_mut().recv(|ms| got.extend(ms.iter().map(item)));
                let mut h = sh2.borrow_mut();
                h.recvd.extend(got);
                let l = h.recvd.len();
                h.after.push(l);
            }
        }));
        let (result, seen) = (&result, &seen);
        let check = move |o: &Outcome| {
            let r = (|| -> Result<(), Fail> {
                let sched = format!("schedule {:?}", o.order);
                check!(!o.deadlock, "blocked", "threads wait forever; {sched}");
                check!(o.panicked.is_empty(), "panic", "thread {:?}: {}; {sched}", o.panicked, last_panic());
                let mut h = sh.borrow_mut();
                check!(!h.allocs, "alloc", "sending allocated or locked; {sched}");
                // the rest
                let mut got = vec![];
                rx.borrow_mut().recv(|ms| got.extend(ms.iter().map(item)));
                h.recvd.extend(got);
                let all = h.recvd.len();
                let order = whose(&h.recvd, lens).map_err(|f| Fail { key: f.key, msg: format!("{}; {sched}", f.msg) })?;
                // received after each poll, by sender
                let part = |upto: usize| -> Vec<(usize, usize)> {
                    let mut n = 0;
                    let mut v = vec![];
                    for (s, m) in &order {
                        n += lens[*s][*m] + 1;
                        if n <= upto {
                            v.push((*s, *m));
                        }
                    }
                    v
                };
                let weight = |v: &[(usize, usize)], s: usize| v.iter().filter(|x| x.0 == s).map(|x| lens[s][x.1] + 1).sum::<usize>();
                for s in 0..lens.len() {
                    let mut kept = 0;
                    for (m, x) in h.sent.iter().filter(|x| x.s == s).enumerate() {
                        let delivered = order.contains(&(s, m));
                        // everything polls had taken before, and everything they may have by now
                        let lo = weight(&part(x.lo), s);
                        let hi = if x.polls == 0 { 0 } else { weight(&part(h.after[x.polls - 1].min(all)), s) };
                        if kept + x.len + 1 <= cap + lo {
                            check!(delivered, "lost", "message {m} of sender {s} ({} items) had room ({kept} sent, {lo} received of {cap}) but was lost; {sched}", x.len + 1);
                        }
                        if delivered {
                            check!(kept + x.len + 1 <= cap + hi, "overfull", "message {m} of sender {s} had no room ({kept} sent, {hi} received of {cap}) but was received; {sched}");
                            kept += x.len + 1;
                        }
                    }
                }
                // complete messages are received by the next poll
                for (p, done) in h.before.iter().enumerate() {
                    let by = part(h.after[p]);
                    for (s, d) in done.iter().enumerate() {
                        for x in order.iter().filter(|x| x.0 == s && x.1 < *d) {
                            check!(by.contains(x), "late", "message {} of sender {s} was sent before poll {p} but not received by it; {sched}", x.1);
                        }
                    }
                }
                seen.borrow_mut().insert(order);
                Ok(())
            })();
            match r {
                Ok(()) => true,
                Err(f) => {
                    *result.borrow_mut() = Some(f);
                    false
                }
            }
        };
        (ts, Box::new(check))
    });
    rec.transitions += steps;
    rec.count("schedules", n);
    rec.count("distinct deliveries", seen.borrow().len() as u64);
    for d in seen.borrow().iter() {
        rec.state(&(cap, lens, d));
    }
    match result.into_inner() {
        None => Ok(()),
        Some(f) => Err(f),
    }
}

// ---------------------------------------------------------------- histories
/// All words of sends and polls, exactly
fn history(caps: &[usize], ops: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (mut txs, mut rx) = Rx::new(caps);
    let n = caps.len();
    let mut queues: Vec<Vec<Item>> = vec![vec![]; n];
    let mut count = vec![0; n];
    for op in ops.iter().copied().chain([6 * n as u16]) {
        let op = op as usize;
        if op < 6 * n {
            let (s, len) = (op / 6, [0, 1, 2, 3, 5, 6][op % 6]);
            let before = alloc::audio_counts();
            on_audio(|| send(&mut txs[s], s, count[s], len));
            let after = alloc::audio_counts();
            check!(before == after || len > 5, "alloc", "sending allocated");
            if queues[s].len() + len + 1 <= caps[s] {
                queues[s].extend(items(s, count[s], len));
            }
            count[s] += 1;
        } else {
            let mut got: Vec<Item> = vec![];
            rx.recv(|ms| got.extend(ms.iter().map(item)));
            // messages of one sender in order, and none mixed
            let (ms, rest) = messages(&got);
            check!(rest.is_empty(), "partial", "received a part {rest:?}");
            let mut want: Vec<Vec<Vec<Item>>> = queues.iter().map(|q| messages(q).0).collect();
            for m in ms {
                let Some(s) = (0..n).find(|s| want[*s].first() == Some(&m)) else {
                    return fail("message", format!("received {m:?} while {want:?} should come"));
                };
                want[s].remove(0);
            }
            check!(want.iter().all(|w| w.is_empty()), "lost", "not received: {want:?}");
            for q in &mut queues {
                q.clear();
            }
        }
        rec.state(&(caps, queues.iter().map(|q| q.len()).collect::<Vec<_>>(), &count));
        rec.transitions += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- from units
/// Logs messages of these lengths in its blocks
struct Logger {
    block: usize,
    len: [u16; 4],
}
impl UGen for Logger {
    type Sample = f32;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, U0>) -> Frame<f32, U1> {
        if self.block < 4 {
            let l = self.len[self.block] as usize;
            if l > 0 {
                send(ctx.logger(), 0, self.block, l);
            }
        }
        self.block += 1;
        [0.0].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// units logging in blocks of one frame, and when the main thread polls
fn through(cap: usize, lens: [[u16; 4]; 2], polls: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (mut graph, mut proc, mut rx) = AudioProcessor::<f32>::new::<U0, U1>(AudioProcessorOptions { block_size: 1, sample_rate: 1000, ring_buffer_size: 8, log_channel_capacity: cap });
    graph.edit(|g| {
        let a = g.push(Logger { block: 0, len: lens[0] });
        let b = g.push(Logger { block: 0, len: lens[1] });
        // (one after the other)
        let c = a + b;
        c.to_graph_out();
    });
    let mut q = 0;
    let mut got: Vec<Item> = vec![];
    let mut want = vec![];
    for t in 0..4 {
        let before = alloc::audio_counts();
        on_audio(|| proc.run(&[]));
        check!(alloc::audio_counts() == before, "alloc", "logging allocated or locked");
        // both units send the same message if the lengths are the same; which one is processed first shows in the first block
        let l = [lens[0][t], lens[1][t]].map(|l| l as usize);
        let orders = [[l[0], l[1]], [l[1], l[0]]];
        let outcome = |o: [usize; 2], mut q: usize| {
            let mut v = vec![];
            for l in o {
                if l > 0 && q + l + 1 <= cap {
                    q += l + 1;
                    v.extend(items(0, t, l));
                }
            }
            (q, v)
        };
        want.push(orders.map(|o| outcome(o, q)));
        if want[t][0].0 != want[t][1].0 {
            // the order of the units would decide what fits
            return Ok(());
        }
        q = want[t][0].0;
        if polls[t] == 1 {
            rx.recv(|ms| got.extend(ms.iter().map(item)));
            q = 0;
        }
        rec.transitions += 1;
    }
    rx.recv(|ms| got.extend(ms.iter().map(item)));
    let all = |k: usize| want.iter().flat_map(|w| w[k].1.clone()).collect::<Vec<_>>();
    check!(got == all(0) || got == all(1), "messages", "received {got:?} rather than {:?}", all(0));
    rec.state(&(cap, lens, polls));
    Ok(())
}
/// a probe's messages
fn probe(every: usize, bs: usize, blocks: usize, poll: usize, rec: &mut Rec) -> Result<(), Fail> {
    use knaster_core_dsp::util::LogProbe;
    let (mut graph, mut proc, mut rx) = AudioProcessor::<f64>::new::<U1, U1>(AudioProcessorOptions { block_size: bs, sample_rate: every as u32, ring_buffer_size: 8, log_channel_capacity: 400 });
    graph.edit(|g| {
        let p = g.push(LogProbe::<f64>::new("name"));
        g.from_inputs(0).unwrap().to(p);
    });
    let mut got: Vec<Item> = vec![];
    let mut want = vec![];
    for b in 0..blocks {
        let x: Vec<f64> = (0..bs).map(|i| (b * bs + i) as f64 + 0.25).collect();
        proc.run(&[&x]);
        for (i, x) in x.iter().enumerate() {
            if (b * bs + i) % every == 0 {
                want.extend([item(&"Probe".into()), item(&"name".into()), item(&(*x).into()), (0, 0)]);
            }
        }
        if b % poll == 0 {
            rx.recv(|ms| got.extend(ms.iter().map(item)));
        }
        rec.transitions += 1;
    }
    rx.recv(|ms| got.extend(ms.iter().map(item)));
    // the words around the value may be others
    let values = |v: &[Item]| messages(v).0.iter().map(|m| m.iter().filter(|i| i.0 == 2).copied().collect::<Vec<_>>()).collect::<Vec<_>>();
    check!(values(&got) == values(&want), "probe", "every {every} samples in blocks of {bs}: received {got:?} rather than {want:?}");
    rec.state(&(every, bs));
    Ok(())
}
fn conversions() -> Result<(), Fail> {
    let (mut tx, mut rx) = ArLogReceiver::new().sender(32);
    check!(rx.channels() == 1, "channels", "{}", rx.channels());
    rt_log!(tx; "text", 1.5_f64, -2.5_f32, 7usize, u64::MAX, u32::MAX, u16::MAX, u8::MAX, i64::MIN, i32::MIN, i16::MIN, i8::MIN, Seconds::from_secs_f64(1.25));
    let mut v = vec![];
    let mut text = String::new();
    rx.recv(|ms| {
        for m in ms {
            text += &format!("{m}|");
            v.push(item(m));
            assert_eq!(m.is_end(), item(m).0 == 0);
        }
    });
    let w = "text|1.5|-2.5|7|18446744073709551615|4294967295|65535|255|-9223372036854775808|-2147483648|-32768|-128|1.25 seconds|End|";
    check!(text == w, "conversion", "{text} rather than {w}");
    check!(v.iter().map(|i| i.0).collect::<Vec<_>>() == [1, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4, 4, 5, 0], "conversion", "{v:?}");
    // without a receiver
    let mut l = ArLogSender::non_rt();
    rt_log!(l; "to the log", 1);
    // a receiver that's gone
    drop(rx);
    for _ in 0..40 {
        rt_log!(tx; 1, 2);
    }
    Ok(())
}
pub fn l01(run: &Run) {
    run.assume("a message is sent as a chain (`rt_log`, `send_chain`); one message is split into several slices only as documented");
    run.explore(&Product { name: "conversions".into(), dims: vec![1], f: |_: &[u16], _: &mut Rec| conversions(), d: |_| "conversions".into() });
    let b = run.pick(5, 8);
    run.explore(&Product {
        name: format!("one sender, three messages, three polls, at most {b} preemptions: capacity x lengths"),
        dims: vec![6, 4, 4, 4],
        f: move |c: &[u16], rec: &mut Rec| schedules(c[0] as usize + 1, &[c[1..].iter().map(|l| *l as usize).collect()], 3, b, rec),
        d: |c| format!("capacity {}, lengths {:?}", c[0] + 1, &c[1..]),
    });
    let b = run.pick(3, 5);
    run.explore(&Product {
        name: format!("one sender, four messages, four polls, at most {b} preemptions: capacity x lengths"),
        dims: vec![5, 3, 3, 3, 3],
        f: move |c: &[u16], rec: &mut Rec| schedules(c[0] as usize + 2, &[c[1..].iter().map(|l| *l as usize + 1).collect()], 4, b, rec),
        d: |c| format!("capacity {}, lengths {:?} + 1", c[0] + 2, &c[1..]),
    });
    let b = run.pick(3, 5);
    run.explore(&Product {
        name: format!("two senders of two messages each, two polls, at most {b} preemptions: capacity x lengths"),
        dims: vec![4, 3, 3, 3, 3],
        f: move |c: &[u16], rec: &mut Rec| {
            let l: Vec<usize> = c[1..].iter().map(|l| *l as usize + 1).collect();
            schedules(c[0] as usize + 2, &[l[..2].to_vec(), l[2..].to_vec()], 2, b, rec)
        },
        d: |c| format!("capacity {}, lengths {:?} + 1", c[0] + 2, &c[1..]),
    });
    let n = run.pick(7, 8);
    run.explore(&Product {
        name: format!("one sender: capacity x {n} sends and polls"),
        dims: [vec![8], vec![7; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| history(&[c[0] as usize + 1], &c[1..], rec),
        d: |c| format!("capacity {}, {:?} (6 polls)", c[0] + 1, &c[1..]),
    });
    let n = run.pick(4, 5);
    run.explore(&Product {
        name: format!("two and three senders: capacities x {n} sends and polls"),
        dims: [vec![2, 4, 4], vec![19; n]].concat(),
        f: |c: &[u16], rec: &mut Rec| {
            let caps = [c[1] as usize * 2 + 1, c[2] as usize + 2, 4];
            let k = if c[0] == 0 { 2 } else { 3 };
            let ops: Vec<u16> = c[3..].iter().map(|o| (*o).min(6 * k)).collect();
            history(&caps[..k as usize], &ops, rec)
        },
        d: |c| format!("{} senders, capacities {:?}, {:?}", c[0] + 2, &c[1..3], &c[3..]),
    });
    run.explore(&Product {
        name: "units of a graph logging: capacity x lengths over four blocks x polls".into(),
        dims: vec![7, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2],
        f: |c: &[u16], rec: &mut Rec| through(c[0] as usize + 2, [[c[1], c[2], c[3], c[4]], [c[5], c[6], c[7], c[8]]], &c[9..], rec),
        d: |c| format!("capacity {}, lengths {:?} and {:?}, polls {:?}", c[0] + 2, &c[1..5], &c[5..9], &c[9..]),
    });
    run.explore(&Product {
        name: "probe: interval x block size x blocks between polls".into(),
        dims: vec![11, 5, 3],
        f: |c: &[u16], rec: &mut Rec| probe([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40][c[0] as usize], [1, 2, 4, 8, 16][c[1] as usize], 6, c[2] as usize + 1, rec),
        d: |c| format!("{c:?}"),
    });
}
