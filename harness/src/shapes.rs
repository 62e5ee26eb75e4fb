//! Larger graphs of regular shapes: up to dozens of nodes, many channels, many connections to one input.
use crate::common::*;
use crate::world::*;
use Mode::*;
use R::*;
use std::sync::atomic::Ordering::SeqCst;

/// Nodes and connections of a shape; the numbers of nodes are replaced by those of the order they're pushed in.
struct Shape {
    kinds: Vec<Kind>,
    conns: Vec<Op>,
}
pub const FAMILIES: [&str; 24] = [
    "chain",
    "sources into one input",
    "sources into a graph output",
    "sources over eight inputs",
    "one source into many",
    "everything into everything after it",
    "tree",
    "parallel chains of three",
    "crossing pairs",
    "chain of eight channels",
    "chain of audio rate parameters",
    "ring closed by feedback, feedback every third",
    "graph inputs into all",
    "the same connection again and again",
    "unconnected nodes of all kinds",
    "feedback from all into one input",
    "sources into one parameter",
    "one of eight outputs into many, all to the graph outputs",
    "nine graph inputs and outputs, crossed",
    "seventeen graph inputs, five outputs",
    "forty graph outputs",
    "forty graph inputs",
    "chain of twenty channels",
    "forty inputs of a node",
];
fn shape(family: usize, n: usize) -> Shape {
    let (mut kinds, mut conns) = (vec![], vec![]);
    let m = |i: usize| N(i as u8);
    let mut c = |s: R, sc: usize, d: R, dc: usize, mode: Mode| conns.push(Op::Conn(s, sc as u16, d, dc as u16, mode));
    match family {
        0 => {
            for i in 0..n {
                kinds.push(k(1, 1));
                c(if i == 0 { G } else { m(i - 1) }, 0, m(i), 0, Add);
            }
            c(m(n - 1), 0, G, 0, Add);
        }
        1 => {
            kinds.push(k(1, 1));
            for i in 1..=n {
                kinds.push(k(0, 1));
                c(m(i), 0, m(0), 0, Add);
            }
            c(m(0), 0, G, 1, Add);
        }
        2 => {
            for i in 0..n {
                kinds.push(k(0, 2));
                c(m(i), i % 2, G, 1, Add);
            }
        }
        3 => {
            kinds.push(k(8, 8));
            for i in 1..=n {
                kinds.push(k(0, 1));
                c(m(i), 0, m(0), (i * 3) % 8, Add);
            }
            for o in 0..8 {
                c(m(0), o, G, o % 2, Add);
            }
        }
        4 => {
            kinds.push(k(0, 1));
            for i in 1..=n {
                kinds.push(k(1, 1));
                c(m(0), 0, m(i), 0, Add);
                c(m(i), 0, G, i % 2, Add);
            }
        }
        5 => {
            for i in 0..n {
                kinds.push(k(2, 2));
                for j in 0..i.min(9) {
                    c(m(j), (i + j) % 2, m(i), j % 2, Add);
                }
            }
            c(m(n - 1), 1, G, 0, Add);
        }
        6 => {
            for i in 0..n {
                kinds.push(k(2, 1));
                if i > 0 {
                    c(m(i), 0, m((i - 1) / 2), (i + 1) % 2, Add);
                }
            }
            c(m(0), 0, G, 0, Add);
        }
        7 => {
            for i in 0..n {
                for j in 0..3 {
                    kinds.push(k(if j == 0 { 0 } else { 1 }, 1));
                    if j > 0 {
                        c(m(3 * i + j - 1), 0, m(3 * i + j), 0, Add);
                    }
                }
                c(m(3 * i + 2), 0, G, i % 2, Add);
            }
        }
        8 => {
            for i in 0..n {
                kinds.push(k(2, 2));
                if i > 0 {
                    c(m(i - 1), 0, m(i), 1, Add);
                    c(m(i - 1), 1, m(i), 0, Add);
                }
            }
            c(m(n - 1), 0, G, 1, Add);
            c(m(n - 1), 1, G, 0, Add);
        }
        9 => {
            for i in 0..n {
                kinds.push(k(8, 8));
                for ch in 0..8 {
                    if i > 0 {
                        c(m(i - 1), ch, m(i), (ch + 1) % 8, Add);
                    }
                }
            }
            for o in 0..8 {
                c(m(n - 1), o, G, o % 2, Add);
            }
        }
        10 => {
            for i in 0..n {
                kinds.push(kar(1, 1));
                if i > 0 {
                    conns.push(Op::Par(m(i - 1), 0, m(i), if i % 2 == 0 { Prm::I(0) } else { Prm::D("beta") }, false));
                }
            }
            conns.push(Op::Conn(m(n - 1), 0, G, 0, Add));
        }
        11 => {
            for i in 0..n {
                kinds.push(k(1, 1));
                if i > 0 {
                    c(m(i - 1), 0, m(i), 0, if i % 3 == 0 { Fb } else { Add });
                }
            }
            c(m(n - 1), 0, m(0), 0, Fb);
            c(m(n / 2), 0, G, 0, Add);
        }
        12 => {
            for i in 0..n {
                kinds.push(k(2, 2));
                c(G, 0, m(i), 1, Add);
                c(m(i), 1, G, i % 2, Add);
            }
            c(G, 0, G, 0, Add);
        }
        13 => {
            kinds = vec![k(0, 1), k(1, 1)];
            for _ in 0..n {
                c(m(0), 0, m(1), 0, Add);
            }
            c(m(1), 0, G, 0, Add);
        }
        14 => {
            for i in 0..n {
                kinds.push([k(0, 0), k(1, 0), k(0, 1), k(2, 2), k(0, 3)][i % 5]);
            }
        }
        15 => {
            kinds.push(k(1, 1));
            for i in 1..=n {
                kinds.push(k(1, 1));
                c(m(0), 0, m(i), 0, Add);
                c(m(i), 0, m(0), 0, Fb);
            }
            c(m(0), 0, G, 1, Add);
        }
        16 => {
            kinds.push(kar(1, 1));
            for i in 1..=n {
                kinds.push(k(0, 1));
                conns.push(Op::Par(m(i), 0, m(0), Prm::I(i as u16 % 2), false));
            }
            conns.push(Op::Conn(m(0), 0, G, 1, Add));
        }
        18 => {
            for i in 0..n {
                kinds.push(k(1, 1));
                c(G, i * 5 % 9, m(i), 0, Add);
                c(m(i), 0, G, i * 4 % 9, Add);
            }
            for i in 0..9 {
                c(G, i, G, (i + 2) % 9, Add);
            }
        }
        19 => {
            for i in 0..n {
                kinds.push(k(2, 2));
                c(G, i * 3 % 17, m(i), 1, Add);
                c(G, (i * 5 + 1) % 17, m(i), 0, Add);
                c(m(i), i % 2, G, i % 5, Add);
            }
            c(G, 16, G, 4, Add);
        }
        20 => {
            for i in 0..n {
                kinds.push(k(0, 1));
                c(m(i), 0, G, i * 7 % 40, Add);
            }
            c(m(0), 0, G, 39, Add);
            c(G, 1, G, 17, Add);
        }
        21 => {
            for i in 0..n {
                kinds.push(k(8, 8));
                for ch in 0..8 {
                    c(G, (8 * i + ch) % 40, m(i), 7 - ch, Add);
                }
                c(m(i), i % 8, G, 0, Add);
            }
        }
        22 => {
            for i in 0..n {
                kinds.push(k(20, 20));
                for ch in 0..20 {
                    if i > 0 {
                        c(m(i - 1), ch, m(i), (ch * 3 + 1) % 20, Add);
                    }
                }
            }
            for o in 0..20 {
                c(m(n - 1), o, G, o % 2, Add);
            }
        }
        23 => {
            kinds.push(k(40, 1));
            for i in 1..=n {
                kinds.push(k(0, 1));
                c(m(i), 0, m(0), i * 3 % 40, Add);
            }
            c(m(0), 0, G, 0, Add);
        }
        _ => {
            kinds.push(k(0, 8));
            for i in 1..=n {
                kinds.push(k(1, 1));
                c(m(0), (i * 5) % 8, m(i), 0, Add);
                c(m(i), 0, G, 0, Add);
            }
            for o in 0..8 {
                c(m(0), o, G, 1, Add);
            }
        }
    }
    Shape { kinds, conns }
}
/// Numbers of inputs and outputs of the graph
fn io(family: usize) -> (usize, usize) {
    match family {
        18 => (9, 9),
        19 => (17, 5),
        20 => (2, 40),
        21 => (40, 1),
        _ => (1, 2),
    }
}
/// 5 is free all, one after the other
const CHANGES: [&str; 7] = ["none", "free", "disconnect its output", "disconnect its input", "replace its input", "free all, each commit", "insert a node after"];
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    Output,
    Inspection,
    Count,
    Alloc,
}
pub struct Shapes {
    pub name: String,
    pub families: Vec<usize>,
    pub sizes: Vec<usize>,
    pub bs: Vec<usize>,
    pub judge: Judge,
    pub nest: usize,
}
impl Shapes {
    fn after(&self, w: &mut World) -> Result<(), Fail> {
        match self.judge {
            Judge::Inspection => w.check_inspection(),
            Judge::Count => w.check_count(),
            _ => Ok(()),
        }
    }
    fn large(&self, p: &[u16]) -> bool {
        self.sizes[p[1] as usize] > 12
    }
    fn where_at(p: u16, n: usize) -> usize {
        match p {
            0 => 0,
            1 => n - 1,
            2 => n / 2,
            3 => 1.min(n - 1),
            _ => n.saturating_sub(2),
        }
    }
}
const DIMS: usize = 7;
impl Space for Shapes {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn arity(&self, p: &[u16]) -> usize {
        match p.len() {
            0 => self.families.len(),
            1 => self.sizes.len(),
            // order of the nodes
            2 => 3,
            // connections: all and a commit, a commit and a block after each, backwards
            3 => 3,
            4 if self.large(p) => 1,
            4 => self.bs.len(),
            5 => CHANGES.len(),
            6 => match p[5] {
                0 => 1,
                _ if self.large(p) => 3,
                _ => 5,
            },
            _ => 0,
        }
    }
    fn describe(&self, c: &[u16]) -> String {
        let s = shape(self.families[c[0] as usize], self.sizes[c[1] as usize]);
        format!(
            "{} of size {}, {} nodes pushed {}, {} connections made {}, block size {}, change: {} at {}",
            FAMILIES[self.families[c[0] as usize]],
            self.sizes[c[1] as usize],
            s.kinds.len(),
            ["forwards", "backwards", "even ones first"][c[2] as usize],
            s.conns.len(),
            ["in one commit", "with a commit and block each", "in one commit backwards"][c[3] as usize],
            self.bs[c[4] as usize],
            CHANGES[c[5] as usize],
            Self::where_at(c[6], s.kinds.len())
        )
    }
    fn run(&self, c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
        debug_assert_eq!(c.len(), DIMS);
        let s = shape(self.families[c[0] as usize], self.sizes[c[1] as usize]);
        let n = s.kinds.len();
        let (nin, nout) = io(self.families[c[0] as usize]);
        let mut cfg = Cfg::new(self.bs[c[4] as usize], nin, nout);
        cfg.check_alloc = self.judge == Judge::Alloc;
        cfg.nest = self.nest;
        let mut w = World::new(&cfg);
        // position of each node in the order of pushing
        let order: Vec<usize> = match c[2] {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        };
        let mut at = vec![0; n];
        for (p, i) in order.iter().enumerate() {
            at[*i] = p;
            w.apply(&Op::Push(s.kinds[*i]))?;
        }
        let t = |r: R| if let N(i) = r { N(at[i as usize] as u8) } else { r };
        let tr = |op: &Op| match *op {
            Op::Conn(a, ac, b, bc, m) => Op::Conn(t(a), ac, t(b), bc, m),
            Op::Par(a, ac, b, p, r) => Op::Par(t(a), ac, t(b), p, r),
            ref o => *o,
        };
        let mut conns: Vec<Op> = s.conns.iter().map(tr).collect();
        if c[3] == 2 {
            conns.reverse();
        }
        for op in &conns {
            w.apply(op)?;
            rec.step();
            if c[3] == 1 {
                w.commit();
                self.after(&mut w)?;
                w.run()?;
            }
        }
        w.commit();
        self.after(&mut w)?;
        w.run()?;
        w.run()?;
        let i = Self::where_at(c[6], n);
        let v = N(at[i] as u8);
        let kind = s.kinds[i];
        let mut ops = vec![];
        match c[5] {
            1 => ops.push(Op::Free(v)),
            2 if kind.o > 0 => ops.push(Op::DiscOut(v, kind.o as u16 - 1)),
            3 if kind.i > 0 => ops.push(Op::DiscIn(v, kind.i as u16 - 1)),
            4 if kind.i > 0 => ops.push(Op::Conn(G, 0, v, 0, Rep)),
            5 => {
                for j in 0..n {
                    ops.push(Op::Free(N(at[(i + j) % n] as u8)));
                }
            }
            6 if kind.o > 0 => {
                ops.push(Op::Push(k(1, 1)));
                ops.push(Op::Conn(v, 0, N(n as u8), 0, Add));
                ops.push(Op::Conn(N(n as u8), 0, G, 0, Rep));
            }
            _ => (),
        }
        for op in &ops {
            w.apply(op)?;
            rec.step();
            if c[5] == 5 {
                w.commit();
                self.after(&mut w)?;
                w.run()?;
            }
        }
        w.commit();
        self.after(&mut w)?;
        w.run()?;
        w.run()?;
        w.commit();
        self.after(&mut w)?;
        w.run()?;
        rec.state(&(&w.pend, c[2], c[4]));
        rec.transitions += w.m.blocks;
        let World { graph, proc, nodes, around, .. } = w;
        drop(graph.0);
        drop(proc);
        drop(around);
        for (i, n) in nodes.iter().enumerate() {
            check!(n.obs.drops.load(SeqCst) == 1, "final-drop", "node {i} was dropped {} times after everything was dropped", n.obs.drops.load(SeqCst));
        }
        Ok(())
    }
}
/// Explore the families at these sizes
pub fn explore(run: &Run, name: &str, families: &[usize], judge: Judge, most: usize) {
    let mut sizes: Vec<usize> = (1..=most).collect();
    sizes.extend(if run.thorough() { &[28, 32, 33, 34, 40, 48, 63, 64, 65, 70][..] } else { &[17, 34][..] });
    let bs = if run.thorough() { vec![1, 3, 16, 64, 67] } else { vec![3, 67] };
    let (families, wide): (Vec<usize>, Vec<usize>) = families.iter().partition(|f| **f < 18);
    run.explore(&Shapes { name: format!("{name} up to size 1..{most}, some larger"), families, sizes, bs: bs.clone(), judge, nest: 0 });
    if !wide.is_empty() {
        run.explore(&Shapes { name: format!("{name} of many channels"), families: wide, sizes: if run.thorough() { vec![1, 2, 3, 7, 17, 34] } else { vec![2, 13] }, bs, judge, nest: 0 });
    }
}
