//! P01: time arithmetic. P02: block views.
use crate::common::*;
use knaster_core::typenum::*;
use knaster_core::{BlockMetadata, BlockRead, EmptyBlock, PartialBlock, StaticBlock};
use knaster_core::{Block, VecBlock};
use knaster_graph::block::{RawAggregateBlock, RawAggregateBlockRead, RawContiguousBlock};
use knaster_primitives::{Beats, SUBBEAT_TESIMALS_PER_BEAT, SUBSECOND_TESIMALS_PER_SECOND, Seconds};

const SUB: u128 = SUBSECOND_TESIMALS_PER_SECOND as u128;
const BSUB: u128 = SUBBEAT_TESIMALS_PER_BEAT as u128;
const WHOLE: [u32; 12] = [0, 1, 2, 59, 3600, 65535, 65536, 10_000_019, 1 << 31, u32::MAX / 2, u32::MAX - 1, u32::MAX];
fn parts(sub: u128) -> [u32; 9] {
    let s = sub as u32;
    [0, 1, 2, s / 2 - 1, s / 2, s / 2 + 1, s - 2, s - 1, 12_345_678]
}
fn st(s: Seconds) -> u128 {
    s.to_subsample_tesimals_u64() as u128
}
fn sec(t: u128) -> Seconds {
    Seconds::new((t / SUB) as u32, (t % SUB) as u32)
}
fn bt(b: Beats) -> u128 {
    // the fields are private: find the whole part by comparison
    let mut w: u32 = 0;
    for bit in (0..32).rev() {
        let c = w | 1 << bit;
        if b >= Beats::from_beats(c) {
            w = c;
        }
    }
    let r = b.checked_sub(Beats::from_beats(w)).unwrap();
    let mut t: u32 = 0;
    for bit in (0..31).rev() {
        let c = t | 1 << bit;
        if r >= Beats::new(0, c) {
            t = c;
        }
    }
    w as u128 * BSUB + t as u128
}
fn beat(t: u128) -> Beats {
    Beats::new((t / BSUB) as u32, (t % BSUB) as u32)
}
const SMAX: u128 = u32::MAX as u128 * SUB + SUB - 1;
const BMAX: u128 = u32::MAX as u128 * BSUB + BSUB - 1;
/// a/b rounded to the closest, either way for ties
fn rounded(got: u128, a: u128, b: u128, max: u128) -> bool {
    let (lo, r) = (a / b, a % b);
    let ok = |x: u128| got == x.min(max);
    if 2 * r < b {
        ok(lo)
    } else if 2 * r > b {
        ok(lo + 1)
    } else {
        ok(lo) || ok(lo + 1)
    }
}
/// `got/sub` is `want` within rounding to a tesimal or double precision
fn close(got: u128, sub: u128, want: f64, max: u128) -> bool {
    let w = (want * sub as f64).clamp(0.0, max as f64);
    (got as f64 - w).abs() <= 0.51 + w * 4.0 * f64::EPSILON
}
const RATES: [u32; 22] = [1, 2, 3, 7, 11, 100, 1000, 8000, 11025, 16000, 22050, 32000, 44100, 44101, 48000, 48001, 88200, 96000, 176400, 192000, 352800, 768000];
const FACTORS: [f64; 14] = [0.0, 1.0, 0.5, 2.0, 3.0, 1.0 / 3.0, 0.1, 1e-9, 4.0, 7.5, 1000.0, 1e6, 1.0 + f64::EPSILON, 0.999999999];

fn pair(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (pa, pb) = (parts(SUB), parts(BSUB));
    let (a, b) = (st(Seconds::new(WHOLE[c[0] as usize], pa[c[1] as usize])), st(Seconds::new(WHOLE[c[2] as usize], pa[c[3] as usize])));
    let (sa, sb) = (sec(a), sec(b));
    check!(st(sa) == a, "fields", "{sa:?} has {} tesimals", st(sa));
    check!(sa.cmp(&sb) == a.cmp(&b) && sa.partial_cmp(&sb) == Some(a.cmp(&b)) && (sa == sb) == (a == b) && (sa < sb) == (a < b) && (sa <= sb) == (a <= b), "order", "{sa:?} and {sb:?} compare as {:?}", sa.cmp(&sb));
    if a + b <= SMAX {
        check!(sa + sb == sec(a + b), "add", "{sa:?} + {sb:?} = {:?}", sa + sb);
        let mut x = sa;
        x += sb;
        check!(x == sa + sb, "add-assign", "{sa:?} += {sb:?} gives {x:?}");
    }
    check!(sa.checked_sub(sb) == (a >= b).then(|| sec(a.saturating_sub(b))), "checked-sub", "{sa:?}.checked_sub({sb:?}) = {:?}", sa.checked_sub(sb));
    check!(sa.saturating_sub(sb) == sec(a.saturating_sub(b)), "saturating-sub", "{sa:?}.saturating_sub({sb:?}) = {:?}", sa.saturating_sub(sb));
    check!(rounded(st(sa * sb), a * b, SUB, SMAX), "mul", "{sa:?} * {sb:?} = {:?}", sa * sb);
    let mut x = sa;
    x *= sb;
    check!(x == sa * sb, "mul-assign", "{sa:?} *= {sb:?} gives {x:?}");
    // beats
    let (a, b) = (WHOLE[c[0] as usize] as u128 * BSUB + pb[c[1] as usize] as u128, WHOLE[c[2] as usize] as u128 * BSUB + pb[c[3] as usize] as u128);
    let (ba, bb) = (beat(a), beat(b));
    check!(ba.cmp(&bb) == a.cmp(&b) && ba.partial_cmp(&bb) == Some(a.cmp(&b)) && (ba == bb) == (a == b) && (ba < bb) == (a < b), "beat-order", "{ba:?} and {bb:?} compare as {:?}", ba.cmp(&bb));
    if a + b <= BMAX {
        check!(ba + bb == beat(a + b), "beat-add", "{ba:?} + {bb:?} = {:?}", ba + bb);
        let mut x = ba;
        x += bb;
        check!(x == ba + bb, "beat-add-assign", "{ba:?} += {bb:?} gives {x:?}");
        if a + 2 * b <= BMAX {
            let s: Beats = [ba, bb, bb].into_iter().sum();
            check!(s == beat(a + 2 * b), "beat-sum", "the sum of {ba:?}, {bb:?}, {bb:?} is {s:?}");
        }
    }
    check!(ba.checked_sub(bb) == (a >= b).then(|| beat(a.saturating_sub(b))), "beat-checked-sub", "{ba:?}.checked_sub({bb:?}) = {:?}", ba.checked_sub(bb));
    check!(ba.saturating_sub(bb) == beat(a.saturating_sub(b)), "beat-saturating-sub", "{ba:?}.saturating_sub({bb:?}) = {:?}", ba.saturating_sub(bb));
    {
        check!(rounded(bt(ba * bb), a * b, BSUB, BMAX), "beat-mul", "{ba:?} * {bb:?} = {:?}", ba * bb);
        let mut x = ba;
        x *= bb;
        check!(x == ba * bb, "beat-mul-assign", "{ba:?} *= {bb:?} gives {x:?}");
    }
    rec.state(&(c[0], c[1], c[2], c[3]));
    rec.transitions += 18;
    Ok(())
}
fn single(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (pa, pb) = (parts(SUB), parts(BSUB));
    let (w, p) = (WHOLE[c[0] as usize], c[1] as usize);
    let s = Seconds::new(w, pa[p]);
    let t = st(s);
    check!(t == w as u128 * SUB + pa[p] as u128, "to-tesimals", "{s:?} is {t} tesimals");
    check!(Seconds::from_subsample_tesimals_u64(t as u64) == s, "from-tesimals", "{t} tesimals are {:?}", Seconds::from_subsample_tesimals_u64(t as u64));
    check!(close(t, SUB, s.to_secs_f64(), SMAX), "to-f64", "{s:?} is {} s", s.to_secs_f64());
    let f = s.to_secs_f64();
    let back = Seconds::from_secs_f64(f);
    check!(close(st(back), SUB, f, SMAX) && st(back) % SUB < SUB, "from-f64", "{f} s is {back:?}");
    // doubles below 2^20 s are finer than half a tesimal
    check!(w >= 1 << 20 || back == s, "f64-roundtrip", "{s:?} is {f} s, which is {back:?}");
    let (ts, loss) = Seconds::from_secs_f64_return_precision_loss(f);
    check!(ts == back && (ts.to_secs_f64() + loss - f).abs() <= f.abs() * f64::EPSILON, "precision-loss", "{f} s is {ts:?} with loss {loss}");
    for k in FACTORS {
        {
            check!(close(st(s * k), SUB, f * k, SMAX) && k * s == s * k, "mul-f64", "{s:?} * {k} = {:?}", s * k);
            let k32 = k as f32;
            check!(close(st(s * k32), SUB, f * k32 as f64, SMAX) && k32 * s == s * k32, "mul-f32", "{s:?} * {k32} = {:?}", s * k32);
            let (mut x, mut y) = (s, s);
            x *= k;
            y *= k32;
            check!(x == s * k && y == s * k32, "mul-assign", "{s:?} *= {k}: {x:?} {y:?}");
        }
    }
    for sr in RATES {
        let want = t * sr as u128;
        check!(rounded(s.to_samples(sr as u64) as u128, want, SUB, u64::MAX as u128), "to-samples", "{s:?} is {} samples at {sr} Hz", s.to_samples(sr as u64));
        check!((s.to_samples_f64(sr as f64) - want as f64 / SUB as f64).abs() <= want as f64 / SUB as f64 * 4.0 * f64::EPSILON, "to-samples-f64", "{s:?} is {} samples at {sr} Hz", s.to_samples_f64(sr as f64));
    }
    // durations
    for n in [0u32, 1, 2, 3, 499_999_999, 500_000_000, 999_999_998, 999_999_999] {
        let d = std::time::Duration::new(w as u64, n);
        check!(rounded(st(Seconds::from(d)), d.as_nanos() * SUB, 1_000_000_000, SMAX), "duration", "{d:?} is {:?}", Seconds::from(d));
    }
    check!(Seconds::from(std::time::Duration::new(u32::MAX as u64 + 1 + w as u64, 5)) == Seconds::MAX, "duration-max", "a longer duration doesn't saturate");
    check!(Seconds::from_subsample_tesimals_u64((SMAX as u64).saturating_add(1 + t as u64)) == Seconds::MAX, "tesimals-max", "more tesimals don't saturate");
    // beats
    let b = Beats::new(w, pb[p]);
    let t = w as u128 * BSUB + pb[p] as u128;
    check!(bt(b) == t, "beat-fields", "{b:?}: {} != {t}", bt(b));
    check!(close(t, BSUB, b.as_beats_f64(), BMAX), "beat-to-f64", "{b:?} is {}", b.as_beats_f64());
    check!((b.as_beats_f32() as f64 - b.as_beats_f64()).abs() <= b.as_beats_f64() * 2.0 * f32::EPSILON as f64, "beat-to-f32", "{b:?} is {}", b.as_beats_f32());
    let f = b.as_beats_f64();
    let back = Beats::from_beats_f64(f);
    check!(close(bt(back), BSUB, f, BMAX) && (w >= 1 << 20 || back == b) && Beats::from(f) == back, "beat-from-f64", "{f} beats are {back:?}");
    let f32_ = b.as_beats_f32();
    check!(close(bt(Beats::from_beats_f32(f32_)), BSUB, f32_ as f64, BMAX) && Beats::from(f32_) == Beats::from_beats_f32(f32_), "beat-from-f32", "{f32_} beats are {:?}", Beats::from_beats_f32(f32_));
    for k in FACTORS {
        {
            check!(close(bt(b * k), BSUB, f * k, BMAX), "beat-mul-f64", "{b:?} * {k} = {:?}", b * k);
            let k32 = k as f32;
            check!(close(bt(b * k32), BSUB, f * k32 as f64, BMAX), "beat-mul-f32", "{b:?} * {k32}f32 = {:?}", b * k32);
            let (mut x, mut y) = (b, b);
            x *= k;
            y *= k32;
            check!(x == b * k && y == b * k32, "beat-mul-assign", "{b:?} *= {k}: {x:?} {y:?}");
        }
    }
    for k in [0u64, 1, 2, 3, 5, 7, 100, 255, 256, 65535, 65536, 1 << 31, u32::MAX as u64, 1 << 32] {
        let want = beat((t * k as u128).min(BMAX));
        check!(b * k == want, "beat-mul-int", "{b:?} * {k} = {:?}", b * k);
        check!(k > u32::MAX as u64 || b * k as u32 == want, "beat-mul-int", "{b:?} * {k}u32 = {:?}", b * k as u32);
        check!(k > u16::MAX as u64 || b * k as u16 == want, "beat-mul-int", "{b:?} * {k}u16 = {:?}", b * k as u16);
        check!(k > u8::MAX as u64 || b * k as u8 == want, "beat-mul-int", "{b:?} * {k}u8 = {:?}", b * k as u8);
    }
    macro_rules! frac { ($($n:literal)*) => { $( { const N: u32 = $n; for k in [0u32, 1, 2, N / 2, N - 2.min(N), N - 1] {
        if k < N {
            let x = Beats::from_fractional_beats::<$n>(w, k);
            check!(rounded(bt(x), (w as u128 * N as u128 + k as u128) * BSUB, N as u128, BMAX), "fractional", "{w} and {k}/{N} beats are {x:?}");
        }
    } } )* } }
    frac!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 20 24 32 64 100 128 256 512 1000 1920 48000 1476034560 4294967295);
    for f in [1e10, 1e300, f64::INFINITY, 4294967296.0, 4294967296.5] {
        check!(Seconds::from_secs_f64(f) == Seconds::MAX && st(Seconds::from_secs_f64(-f)) == 0, "from-f64-range", "{f} s is {:?}, {} s is {:?}", Seconds::from_secs_f64(f), -f, Seconds::from_secs_f64(-f));
        check!(Beats::from_beats_f64(f) == beat(BMAX) && Beats::from_beats_f64(-f) == Beats::ZERO, "beats-from-f64-range", "{f} beats are {:?}, {} beats are {:?}", Beats::from_beats_f64(f), -f, Beats::from_beats_f64(-f));
    }
    for f in [-1e-12, -0.3, -0.5, -1.0, -1.5, -0.0] {
        check!(Seconds::from_secs_f64(f) == Seconds::ZERO && Beats::from_beats_f64(f) == Beats::ZERO, "from-negative", "{f} is {:?}, {:?}", Seconds::from_secs_f64(f), Beats::from_beats_f64(f));
    }
    for (d, i) in [(0.0, 0), (0.3, 0), (-0.3, 0), (0.7, 1), (-0.7, -1)] {
        let w = (w % 1000) as u128 * SUB + pa[p] as u128;
        if w as i128 + i as i128 >= 0 {
            let got = Seconds::from_secs_f64((w as f64 + d) / SUB as f64);
            check!(st(got) as i128 == w as i128 + i as i128, "from-f64-fraction", "{w} tesimals {d:+} is {} tesimals", st(got));
        }
    }
    check!(Beats::from_beats(w) == Beats::new(w, 0), "from-beats", "");
    rec.state(&(c[0], c[1]));
    rec.transitions += 100;
    Ok(())
}
/// Every number of samples within a second, in several seconds.
fn samples(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let sr = RATES[c[0] as usize] as u64;
    let whole = [0u64, 1, 59, 65535, u32::MAX as u64 / 2, u32::MAX as u64][c[1] as usize];
    let mut last = None;
    for i in 0..sr {
        let n = whole * sr + i;
        let s = Seconds::from_samples(n, sr);
        check!(rounded(st(s), n as u128 * SUB, sr as u128, SMAX), "from-samples", "{n} samples at {sr} Hz are {s:?}");
        check!(s.to_samples(sr) == n, "samples-roundtrip", "{n} samples at {sr} Hz are {s:?}, which is {} samples", s.to_samples(sr));
        check!(last.is_none() || last < Some(s), "samples-order", "{n} samples aren't later than one less");
        check!((s.to_samples_f64(sr as f64) - n as f64).abs() < 0.01, "samples-f64", "{n} samples at {sr} Hz are {} samples", s.to_samples_f64(sr as f64));
        last = Some(s);
        rec.transitions += 1;
    }
    check!(Seconds::from_samples(u64::MAX, sr) == if u64::MAX / sr > u32::MAX as u64 { Seconds::MAX } else { Seconds::from_samples(u64::MAX, sr) }, "samples-max", "");
    rec.state(&(c[0], c[1]));
    Ok(())
}
pub fn p01(run: &Run) {
    run.explore(&Product { name: "pairs".into(), dims: vec![WHOLE.len(), 9, WHOLE.len(), 9], f: pair, d: |c| format!("whole {} part {} with whole {} part {}", WHOLE[c[0] as usize], c[1], WHOLE[c[2] as usize], c[3]) });
    run.explore(&Product { name: "conversions".into(), dims: vec![WHOLE.len(), 9], f: single, d: |c| format!("whole {} part {}", WHOLE[c[0] as usize], c[1]) });
    run.explore(&Product { name: "sample counts".into(), dims: vec![RATES.len(), run.pick(3, 6)], f: samples, d: |c| format!("every sample count of a second at {} Hz, second {}", RATES[c[0] as usize], c[1]) });
    run.assume("results that exceed 2^32 seconds or beats are only required to saturate in the operations documented so");
}

// ---------------------------------------------------------------- P02
type F = f64;
/// The underlying values, and the frames seen of them.
struct View<'a> {
    base: &'a mut Vec<Vec<F>>,
    start: usize,
    len: usize,
}
fn check_read<B: BlockRead<Sample = F> + ?Sized>(b: &B, base: &[Vec<F>], start: usize, len: usize, what: &str) -> Result<(), Fail> {
    check!(b.channels() == base.len() && b.block_size() == len, "shape", "{what}: {} channels and {} frames instead of {} and {len}", b.channels(), b.block_size(), base.len());
    for (ch, v) in base.iter().enumerate() {
        check!(b.channel_as_slice(ch) == &v[start..start + len], "slice", "{what}: channel {ch} is {:?} instead of {:?}", b.channel_as_slice(ch), &v[start..start + len]);
        for f in 0..len {
            check!(b.read(ch, f) == v[start + f], "read", "{what}: channel {ch} frame {f} reads {} instead of {}", b.read(ch, f), v[start + f]);
        }
    }
    Ok(())
}
fn nest_read<B: BlockRead<Sample = F>>(b: &B, base: &[Vec<F>], start: usize, len: usize, depth: usize, rec: &mut Rec) -> Result<(), Fail> {
    check_read(b, base, start, len, "read view")?;
    rec.state(&(base.len(), start, len, depth));
    rec.transitions += 1;
    Ok(())
}
/// The parts of so many frames to look at: all, or those that differ if there are many
fn cuts(len: usize) -> Vec<(usize, usize)> {
    if len <= 8 {
        return (0..=len).flat_map(|s| (0..=len - s).map(move |l| (s, l))).collect();
    }
    vec![(0, len), (1, len - 1), (0, len - 1), (len / 3, len / 2), (len - 1, 1), (len, 0), (len / 2, 7.min(len / 2))]
}
macro_rules! levels { ($name:ident $next:ident) => {
    fn $name<B: BlockRead<Sample = F>>(b: &B, base: &[Vec<F>], start: usize, len: usize, rec: &mut Rec) -> Result<(), Fail> {
        nest_read(b, base, start, len, 0, rec)?;
        for (s, l) in cuts(len) {
            $next(&PartialBlock::from_block(b, s, l), base, start + s, l, rec)?;
        }
        Ok(())
    }
} }
fn rl3<B: BlockRead<Sample = F>>(b: &B, base: &[Vec<F>], start: usize, len: usize, rec: &mut Rec) -> Result<(), Fail> {
    nest_read(b, base, start, len, 3, rec)
}
levels!(rl2 rl3);
levels!(rl1 rl2);
levels!(rl0 rl1);
fn check_mut<B: Block<Sample = F>>(b: &mut B, v: &mut View, next: &mut F) -> Result<(), Fail> {
    let n = v.base.len();
    check_read(b, v.base, v.start, v.len, "view")?;
    check!(Block::channels(b) == n && Block::block_size(b) == v.len, "shape", "the view has {} channels and {} frames", Block::channels(b), Block::block_size(b));
    // write one value: it, and only it, changes
    for ch in 0..n {
        for f in 0..v.len {
            *next += 1.0;
            b.write(*next, ch, f);
            v.base[ch][v.start + f] = *next;
            check!(Block::read(b, ch, f) == *next, "read-back", "channel {ch} frame {f} reads {} instead of {next}", Block::read(b, ch, f));
        }
        *next += 1.0;
        let s = b.channel_as_slice_mut(ch);
        check!(s.len() == v.len, "slice-length", "the slice of channel {ch} has {} frames instead of {}", s.len(), v.len);
        if v.len > 0 {
            s[v.len - 1] = *next;
            v.base[ch][v.start + v.len - 1] = *next;
        }
        check_read(b, v.base, v.start, v.len, "written view")?;
    }
    let mut seen = 0;
    let all: Vec<&mut [F]> = b.iter_mut().collect();
    for (ch, s) in all.into_iter().enumerate() {
        check!(ch < n && s.len() == v.len, "iterate", "channel {ch} of {n} has {} frames instead of {}", s.len(), v.len);
        for (f, x) in s.iter_mut().enumerate() {
            check!(*x == v.base[ch][v.start + f], "iterate", "channel {ch} frame {f} is {x}");
            *next += 1.0;
            *x = *next;
            v.base[ch][v.start + f] = *next;
        }
        seen += 1;
    }
    check!(seen == n, "iterate", "{seen} channels instead of {n}");
    check_read(b, v.base, v.start, v.len, "iterated view")?;
    for s in (0..=v.len).step_by(1 + v.len / 16) {
        let l = (v.len - s) / 2;
        check_read(&Block::partial(b, s, l), v.base, v.start + s, l, "read view of the view")?;
    }
    Ok(())
}
macro_rules! mlevels { ($name:ident $next:ident) => {
    fn $name<B: Block<Sample = F>>(b: &mut B, base: &mut Vec<Vec<F>>, start: usize, len: usize, next: &mut F, rec: &mut Rec) -> Result<(), Fail> {
        check_mut(b, &mut View { base, start, len }, next)?;
        rec.transitions += 1;
        for (s, l) in cuts(len) {
            $next(&mut b.partial_mut(s, l), base, start + s, l, next, rec)?;
            // nothing outside of it has changed
            check_read(b, base, start, len, "viewed block")?;
        }
        Ok(())
    }
} }
fn ml3<B: Block<Sample = F>>(b: &mut B, base: &mut Vec<Vec<F>>, start: usize, len: usize, next: &mut F, rec: &mut Rec) -> Result<(), Fail> {
    rec.transitions += 1;
    rec.state(&("w", base.len(), start, len));
    check_mut(b, &mut View { base, start, len }, next)
}
mlevels!(ml2 ml3);
mlevels!(ml1 ml2);
mlevels!(ml0 ml1);
const KINDS: [&str; 6] = ["VecBlock", "StaticBlock", "RawContiguousBlock", "RawAggregateBlock", "RawAggregateBlockRead", "EmptyBlock"];
fn fill<B: Block<Sample = F>>(b: &mut B, base: &[Vec<F>]) {
    for (ch, v) in base.iter().enumerate() {
        for (f, x) in v.iter().enumerate() {
            b.write(*x, ch, f);
        }
    }
}
fn views(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let (kind, ch, n) = (c[0], c[1] as usize, c[2] as usize);
    let mut base: Vec<Vec<F>> = (0..ch).map(|c| (0..n).map(|f| (1 + c * 1000 + f) as F).collect()).collect();
    let mut next = 100000.0;
    const CANARY: F = -12345.0;
    match kind {
        0 => {
            let mut b = VecBlock::<F>::new(ch, n);
            check_read(&b, &vec![vec![0.0; n]; ch], 0, n, "new block")?;
            fill(&mut b, &base);
            rl0(&b, &base, 0, n, rec)?;
            ml0(&mut b, &mut base, 0, n, &mut next, rec)?;
            let flat: Vec<F> = base.concat();
            check!(unsafe { std::slice::from_raw_parts(b.ptr_to_internal_buffer(), ch * n) } == flat.as_slice(), "pointer", "the buffer pointer doesn't point to the channels in order");
        }
        1 => {
            macro_rules! go { ($($c:literal $n:literal $ct:ty, $nt:ty;)*) => { match (ch, n) { $(($c, $n) => {
                let mut b = StaticBlock::<F, $ct, $nt>::new();
                check_read(&b, &vec![vec![0.0; n]; ch], 0, n, "new block")?;
                fill(&mut b, &base);
                rl0(&b, &base, 0, n, rec)?;
                ml0(&mut b, &mut base, 0, n, &mut next, rec)?;
            })* _ => return Ok(()) } } }
            go!(0 1 U0,U1; 0 4 U0,U4; 1 0 U1,U0; 1 1 U1,U1; 1 2 U1,U2; 1 3 U1,U3; 1 4 U1,U4; 1 5 U1,U5; 1 6 U1,U6;
                2 0 U2,U0; 2 1 U2,U1; 2 2 U2,U2; 2 3 U2,U3; 2 4 U2,U4; 2 5 U2,U5; 2 6 U2,U6; 3 1 U3,U1; 3 2 U3,U2; 3 3 U3,U3; 3 4 U3,U4; 3 5 U3,U5; 3 6 U3,U6;
                1 64 U1,U64; 2 17 U2,U17; 5 33 U5,U33; 17 9 U17,U9; 9 70 U9,U70; 33 16 U33,U16;);
        }
        2 => {
            let mut mem = vec![CANARY; ch * n + 8];
            let mut b = unsafe { RawContiguousBlock::new(mem.as_mut_ptr().add(4), ch, n) };
            fill(&mut b, &base);
            rl0(&b, &base, 0, n, rec)?;
            ml0(&mut b, &mut base, 0, n, &mut next, rec)?;
            check!(mem[..4].iter().chain(&mem[4 + ch * n..]).all(|x| *x == CANARY), "outside", "memory around the block was written");
            check!(mem[4..4 + ch * n] == base.concat(), "layout", "the memory is {mem:?}");
        }
        3 | 4 => {
            // channels in memory in reverse order with gaps
            let mut mem = vec![CANARY; ch * (n + 2) + 2];
            let p = mem.as_mut_ptr();
            let ptrs: Vec<*mut F> = (0..ch).map(|c| unsafe { p.add(2 + (ch - 1 - c) * (n + 2)) }).collect();
            {
                let mut b = unsafe { RawAggregateBlock::new(&ptrs, n) };
                fill(&mut b, &base);
                if kind == 3 {
                    rl0(&b, &base, 0, n, rec)?;
                    ml0(&mut b, &mut base, 0, n, &mut next, rec)?;
                } else {
                    let cp: Vec<*const F> = ptrs.iter().map(|p| *p as *const F).collect();
                    let b = unsafe { RawAggregateBlockRead::new(&cp, n) };
                    rl0(&b, &base, 0, n, rec)?;
                }
            }
            for (i, x) in mem.iter().enumerate() {
                let inside = (0..ch).any(|c| (2 + c * (n + 2)..2 + c * (n + 2) + n).contains(&i));
                check!(inside || *x == CANARY, "outside", "memory between the channels was written");
            }
        }
        _ => {
            if ch > 0 || n > 0 {
                return Ok(());
            }
            let mut b = EmptyBlock::<F>::new();
            rl0(&b, &base, 0, 0, rec)?;
            ml0(&mut b, &mut base, 0, 0, &mut next, rec)?;
        }
    }
    Ok(())
}
/// Metadata of nested partial blocks.
fn meta(c: &[u16], rec: &mut Rec) -> Result<(), Fail> {
    let bs = c[0] as usize;
    let clock = [0u64, 1, 4096, 1 << 40][c[1] as usize];
    fn go(m: &BlockMetadata, start: usize, len: usize, clock: u64, depth: usize, rec: &mut Rec) -> Result<(), Fail> {
        rec.transitions += 1;
        check!(m.block_start_offset() == start && m.frames_to_process() == len && m.frame_clock() == clock + start as u64, "metadata", "a partial block of {len} frames from {start} has offset {} frames {} clock {}", m.block_start_offset(), m.frames_to_process(), m.frame_clock());
        if depth > 0 {
            for s in 0..=len {
                for l in 0..=len - s {
                    go(&m.make_partial(s, l), start + s, l, clock, depth - 1, rec)?;
                }
            }
        }
        Ok(())
    }
    let mut m = BlockMetadata::new(bs);
    m.set_frame_clock(clock);
    rec.state(&(c[0], c[1]));
    go(&m, 0, bs, clock, 3, rec)
}
pub fn p02(run: &Run) {
    let n = run.pick(6, 8);
    run.explore(&Product { name: "views".into(), dims: vec![KINDS.len(), 4, n + 1], f: views, d: |c| format!("{} with {} channels of {} frames", KINDS[c[0] as usize], c[1], c[2]) });
    const LARGE: [(usize, usize); 6] = [(1, 64), (2, 17), (5, 33), (17, 9), (9, 70), (33, 16)];
    run.explore(&Product {
        name: "larger views".into(),
        dims: vec![KINDS.len() - 1, LARGE.len()],
        f: |c: &[u16], rec: &mut Rec| {
            let (ch, n) = LARGE[c[1] as usize];
            views(&[c[0], ch as u16, n as u16], rec)
        },
        d: |c| format!("{} with (channels, frames) {:?}", KINDS[c[0] as usize], LARGE[c[1] as usize]),
    });
    run.explore(&Product { name: "metadata".into(), dims: vec![n + 1, 4], f: meta, d: |c| format!("block size {}, clock {}", c[0], c[1]) });
}
