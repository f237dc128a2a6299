//! K06: the intrusive test list against a plain sequence of test names.
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck_lit::test::TestList;
use litcheck_lit::{Test, TestSuite};
use rayon::iter::{IntoParallelIterator, ParallelBridge, ParallelIterator};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

pub struct Maker {
    suite: Arc<TestSuite>,
    next: u32,
}
impl Maker {
    pub fn new() -> Maker {
        let suite: TestSuite = toml::from_str("name = \"s\"\n[format]\nname = \"shtest\"\n").or_else(|_| toml::from_str("name = \"s\"\n")).expect("suite");
        Maker { suite: Arc::new(suite), next: 0 }
    }
    pub fn make(&mut self) -> (u32, Arc<Test>) {
        self.next += 1;
        (self.next, Arc::new(Test::new(format!("{}", self.next).into(), self.suite.clone(), self.suite.config.clone())))
    }
    fn list(&mut self, n: usize) -> (Vec<u32>, TestList) {
        let mut l = TestList::default();
        let mut m = vec![];
        for _ in 0..n {
            let (i, t) = self.make();
            m.push(i);
            l.push_back(t);
        }
        (m, l)
    }
}
fn id(t: &Test) -> u32 {
    t.path.to_str().unwrap().parse().unwrap()
}

pub fn audit(l: &TestList, m: &[u32], r: &mut Rng, h: &str) -> Result<(), Fail> {
    ensure!(l.len() == m.len() && l.is_empty() == m.is_empty(), h, "len {} / is_empty {} for {m:?}", l.len(), l.is_empty());
    let f: Vec<u32> = l.iter().map(|t| id(&t)).collect();
    ensure!(f == m, h, "iterates as {f:?}, expected {m:?}");
    // from both ends
    let mut it = l.iter();
    let (mut lo, mut hi) = (0, m.len());
    while lo < hi {
        ensure!(it.len() == hi - lo, h, "iterator reports {} left, {} are", it.len(), hi - lo);
        // next_back with two or more left is a recorded finding (iter-rev)
        if lo + 1 < hi || r.chance(1, 2) {
            let g = it.next().map(|t| id(&t));
            ensure!(g == Some(m[lo]), h, "mixed iteration: next gave {g:?}, expected {}", m[lo]);
            lo += 1;
        } else {
            let g = it.next_back().map(|t| id(&t));
            ensure!(g == Some(m[hi - 1]), h, "mixed iteration: next_back gave {g:?}, expected {}", m[hi - 1]);
            hi -= 1;
        }
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), h, "mixed iteration goes past its end");
    ensure!(l.front().get().map(id) == m.first().copied() && l.back().get().map(id) == m.last().copied(), h, "front/back");
    Ok(())
}

pub fn k06_history(r: &mut Rng, mk: &mut Maker, steps: usize) -> Result<(String, BTreeMap<&'static str, u64>), Fail> {
    let n = r.below(6);
    let (mut m, mut l) = mk.list(n);
    let mut h = format!("start {m:?}");
    let mut ops: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut op = |o| *ops.entry(o).or_default() += 1;
    for _ in 0..steps {
        match r.below(8) {
            0 | 1 => {
                let (i, t) = mk.make();
                h += &format!("; push_back {i}");
                op("push");
                l.push_back(t);
                m.push(i);
            }
            2 => {
                h += "; pop_front";
                op("pop");
                let g = l.pop_front().map(|t| id(&t));
                let w = if m.is_empty() { None } else { Some(m.remove(0)) };
                ensure!(g == w, h, "pop_front gave {g:?}, expected {w:?}");
            }
            3 => {
                h += "; pop_back";
                op("pop");
                let g = l.pop_back().map(|t| id(&t));
                let w = m.pop();
                ensure!(g == w, h, "pop_back gave {g:?}, expected {w:?}");
            }
            4 if r.chance(1, 4) => {
                h += "; clear";
                op("clear");
                l.clear();
                m.clear();
            }
            4 => {
                let n = r.below(4);
                let (am, al) = mk.list(n);
                h += &format!("; append {am:?}");
                op("append");
                l.append(al);
                m.extend(am);
            }
            5 => {
                // a popped test may be put back
                if let Some(t) = l.pop_front() {
                    h += "; rotate";
                    op("relink");
                    let i = m.remove(0);
                    l.push_back(t);
                    m.push(i);
                }
            }
            _ => {
                // a cursor walk; pos is in 0..=len, len being the null position
                // back_mut on two or more tests is a recorded finding (back-mut-position)
                let front = m.len() > 1 || r.chance(1, 2);
                let mut split = None;
                let mut pos;
                {
                    let mut c = if front { l.front_mut() } else { l.back_mut() };
                    pos = if front { 0 } else { m.len().saturating_sub(1) };
                    h += if front { "; front_mut" } else { "; back_mut" };
                    for _ in 0..r.range(1, 8) {
                        ensure!(c.is_null() == (pos == m.len()) && c.get().map(id) == m.get(pos).copied(), h, "cursor is at {:?}, expected {:?}", c.get().map(id), m.get(pos));
                        match r.below(10) {
                            0..=2 => {
                                h += " next";
                                op("cursor move");
                                c.move_next();
                                pos = if pos == m.len() { 0 } else { pos + 1 };
                            }
                            3 | 4 => {
                                h += " prev";
                                op("cursor move");
                                c.move_prev();
                                pos = if pos == 0 && !m.is_empty() { m.len() } else if m.is_empty() { 0 } else { pos - 1 };
                            }
                            5 => {
                                h += " remove";
                                op("cursor remove");
                                let g = c.remove().map(|t| id(&t));
                                let w = if pos < m.len() { Some(m.remove(pos)) } else { None };
                                ensure!(g == w, h, "remove gave {g:?}, expected {w:?}");
                            }
                            6 => {
                                let (i, t) = mk.make();
                                op("cursor insert");
                                if r.chance(1, 2) {
                                    h += &format!(" insert_after {i}");
                                    c.insert_after(t);
                                    if pos == m.len() {
                                        m.insert(0, i);
                                        pos = m.len();
                                    } else {
                                        m.insert(pos + 1, i);
                                    }
                                } else {
                                    h += &format!(" insert_before {i}");
                                    c.insert_before(t);
                                    m.insert(pos, i);
                                    pos += 1;
                                }
                            }
                            7 => {
                                let after = r.chance(1, 2);
                                // other lengths are a recorded finding (splice-position)
                                let n = if after && pos < m.len() { r.below(4) } else { 1 };
                                let (am, al) = mk.list(n);
                                op("cursor splice");
                                let k = am.len();
                                if after {
                                    h += &format!(" splice_after {am:?}");
                                    c.splice_after(al);
                                    if pos == m.len() {
                                        m.splice(0..0, am);
                                        pos = m.len();
                                    } else {
                                        m.splice(pos + 1..pos + 1, am);
                                    }
                                } else {
                                    h += &format!(" splice_before {am:?}");
                                    c.splice_before(al);
                                    m.splice(pos..pos, am);
                                    pos += k;
                                }
                            }
                            8 => {
                                h += " split_after";
                                op("cursor split");
                                let s = c.split_after();
                                let sm = if pos == m.len() {
                                    pos = 0;
                                    std::mem::take(&mut m)
                                } else {
                                    m.split_off(pos + 1)
                                };
                                split = Some((s, sm));
                                break;
                            }
                            _ => {}
                        }
                    }
                    ensure!(c.is_null() == (pos == m.len()) && c.get().map(id) == m.get(pos).copied(), h, "cursor ends at {:?}, expected {:?}", c.get().map(id), m.get(pos));
                }
                if let Some((s, sm)) = split {
                    audit(&s, &sm, r, &format!("{h} (split off part)"))?;
                    if r.chance(1, 2) {
                        h += " append-back";
                        l.append(s);
                        m.extend(sm);
                    }
                }
            }
        }
        audit(&l, &m, r, &h)?;
    }
    // consume
    let how = r.below(2);
    match how {
        0 => {
            op("consume in order");
            let mut it = l.into_iter();
            let mut out = vec![];
            let (mut lo, mut hi) = (0, m.len());
            while lo < hi {
                ensure!(ExactSizeIterator::len(&it) == hi - lo, h, "draining iterator length");
                if r.chance(1, 2) {
                    out.push((it.next().map(|t| id(&t)), m[lo]));
                    lo += 1;
                } else {
                    out.push((it.next_back().map(|t| id(&t)), m[hi - 1]));
                    hi -= 1;
                }
            }
            ensure!(it.next().is_none() && it.next_back().is_none(), h, "draining goes past the end");
            ensure!(out.iter().all(|(g, w)| *g == Some(*w)), h, "drained (got, expected): {out:?}");
        }
        _ => {
            op("parallel for_each");
            let seen: BTreeMap<u32, AtomicU32> = m.iter().map(|i| (*i, AtomicU32::new(0))).collect();
            let n = m.len();
            let len = rayon::iter::IndexedParallelIterator::len(&l.iter().collect::<Vec<_>>().into_par_iter());
            ensure!(len == n, h, "len");
            let bad = AtomicU32::new(0);
            // (indexed splitting is a recorded finding: producer-split-at)
            ParallelIterator::for_each(ParallelBridge::par_bridge(l.into_iter()), |t| match seen.get(&id(&t)) {
                Some(k) => drop(k.fetch_add(1, Ordering::Relaxed)),
                None => drop(bad.fetch_add(1, Ordering::Relaxed)),
            });
            ensure!(bad.load(Ordering::Relaxed) == 0 && seen.values().all(|v| v.load(Ordering::Relaxed) == 1), h, "parallel for_each did not visit every test exactly once: {seen:?}");
        }
    }
    Ok((h, ops))
}

pub fn par_visit(c: &mut Case, tests: usize, threads: usize) -> Result<(), Fail> {
    let mut mk = Maker::new();
    let n = c.rng.range(1, tests);
    let (m, l) = mk.list(n);
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.rng.range(1, threads)).build().unwrap();
    let out = std::sync::Mutex::new(vec![]);
    pool.install(|| ParallelIterator::for_each(ParallelBridge::par_bridge(IntoIterator::into_iter(l)), |t| out.lock().unwrap().push(id(&t))));
    let mut out = out.into_inner().unwrap();
    out.sort();
    ensure!(out == m, format!("{n} tests"), "parallel visit of {n} tests lost or repeated some (got {})", out.len());
    c.count_n("tests visited in parallel", n as u64);
    c.evaluated(Some(&format!("parallel {n} {}", c.idx)));
    Ok(())
}
pub fn k06(ctx: &Arc<Ctx>) -> i32 {
    ctx.run("histories", ctx.n(20000, 20), |c| {
        let mut mk = Maker::new();
        let steps = c.rng.range(1, 14);
        let (h, ops) = match k06_history(&mut c.rng, &mut mk, steps) {
            Ok(x) => x,
            Err(f) => fail!(f.detail, "{}", f.msg),
        };
        for (k, n) in ops {
            c.count_n(k, n);
        }
        c.evaluated(Some(&h));
        Ok(())
    });
    // large lists, split by rayon on a pool with more threads than cores
    ctx.run_on(1, "parallel", ctx.n(60, 10), |c| {
        par_visit(c, 3000, 16)
    });
    ctx.probe("back-mut-position", || {
        let mut mk = Maker::new();
        let (m, mut l) = mk.list(3);
        let s = { l.back_mut().split_after() };
        ensure!(l.len() == 3 && s.len() == 0, "", "splitting {m:?} after its last test: lengths {} and {}", l.len(), s.len());
        Ok(())
    });
    ctx.probe("splice-position", || {
        let mut mk = Maker::new();
        let (_, mut l) = mk.list(2);
        let (_, o) = mk.list(2);
        let s = {
            let mut c = l.front_mut();
            c.splice_before(o);
            c.split_after()
        };
        ensure!(l.len() == 3 && s.len() == 1, "", "two tests spliced before the first of two, then split after it: lengths {} and {}", l.len(), s.len());
        Ok(())
    });
    ctx.probe("iter-rev", || {
        let mut mk = Maker::new();
        let (m, l) = mk.list(3);
        let b: Vec<u32> = l.iter().rev().map(|t| id(&t)).collect();
        ensure!(b.iter().rev().eq(m.iter()), "", "{m:?} iterates backwards as {b:?}");
        Ok(())
    });
    ctx.probe("producer-split-at", || {
        use rayon::iter::plumbing::Producer;
        let mut mk = Maker::new();
        let (m, l) = mk.list(4);
        let (a, b) = Producer::split_at(l.into_par_iter(), 2);
        let (ga, gb): (Vec<u32>, Vec<u32>) = (Iterator::map(a, |t| id(&t)).collect(), Iterator::map(b, |t| id(&t)).collect());
        ensure!(ga == m[..2] && gb == m[2..], "", "split_at(2) of {m:?} gave {ga:?} and {gb:?}");
        Ok(())
    });
    ctx.finish("exploration", "random operation histories (push/pop/append/clear/relink, cursor walks with insert, remove, splice and split, double-ended and parallel consumption) compared after every step with a plain sequence of test identities; every test is identified, so losses, repetitions and reorderings are told apart; non-trivial: every history", &[])
}
