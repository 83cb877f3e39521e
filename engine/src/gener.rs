//! C17 .. C22: push pipelines against plain functions on the whole list of inputs.
use crate::{ensure, ways};
use crate::src::{Src, R};
use matchit::fromgenerator::{FromAdaptFn, FromAdaptFnCall};
use matchit::generator::adapter::*;
use matchit::generator::generator::Generator;
use matchit::generator::groupby::{GroupBy, Merge};
use matchit::generator::reducer::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::ops::ControlFlow;

type V = u32;

// ---------------------------------------------------------------- the functions of a pipeline
fn hash(k: u32, a: V, b: V) -> u32 {
    let mut x = k.wrapping_mul(0x9e3779b9) ^ a.wrapping_mul(0x85ebca6b) ^ b.wrapping_mul(0xc2b2ae35).rotate_left(7);
    x ^= x >> 15;
    x = x.wrapping_mul(0x2c1b3c6d);
    x ^ (x >> 13)
}
fn pred(k: u8, x: V) -> bool {
    match k % 6 {
        0 => true,
        1 => x % 2 == 0,
        2 => x > 3,
        3 => x < 5,
        4 => false,
        _ => hash(k as u32, x, 0) & 1 == 0,
    }
}
fn mapf(k: u8, x: V) -> V {
    match k % 4 {
        0 => x,
        1 => x.wrapping_mul(2),
        2 => x / 2,
        _ => hash(k as u32, x, 1) % 11,
    }
}
fn rel(k: u8, a: V, b: V) -> bool {
    match k % 9 {
        0 => b >= a,
        1 => b > a,
        2 => a == b,
        3 => a != b,
        4 => a.abs_diff(b) <= 1,
        5 => b == a + 1,
        6 => true,
        7 => false,
        _ => hash(k as u32, a % 5, b % 5) & 1 == 0,
    }
}
/// merging two values: None or the merged value
fn mergef(k: u8, a: V, b: V) -> Option<V> {
    match k % 6 {
        0 => (a.abs_diff(b) <= 1).then_some(a.max(b)),
        1 => (a == b).then_some(a),
        2 => None,
        3 => (hash(3, a % 6, b % 6) & 1 == 0).then_some((a + b) % 16),
        4 => (a % 3 == b % 3).then_some(a.wrapping_add(3)),
        _ => (a / 4 == b / 4).then_some(a.min(b)),
    }
}
fn keyf(k: u8, x: V) -> V {
    match k % 4 {
        0 => x,
        1 => x % 3,
        2 => x / 2,
        _ => 100 - x.min(100),
    }
}
fn pair(p: &(V, V)) -> V {
    p.0 * 64 + p.1
}

// ---------------------------------------------------------------- the oracle
#[derive(Clone, Copy, Debug)]
enum St {
    Filter(u8),
    Map(u8),
    Group(u8),
    Merge(u8, u8),
    Script(u8),
    /// gives the inputs on; at the end nothing for so many times, then the number of inputs
    Idle(u32),
}
pub fn runs(k: u8, v: &[V]) -> Vec<(V, V)> {
    let mut r = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && rel(k, v[j], v[j + 1]) {
            j += 1;
        }
        // a run of one is only reported if it is in relation to itself
        if j > i || rel(k, v[i], v[i]) {
            r.push((v[i], v[j]));
        }
        i = j + 1;
    }
    r
}
fn merged(k: u8, kf: u8, v: &[V]) -> Vec<V> {
    let mut m: BTreeMap<V, V> = BTreeMap::new();
    for x in v {
        let hit = m.values().find_map(|p| mergef(k, *p, *x).map(|y| (*p, y)));
        match hit {
            Some((p, y)) => {
                m.remove(&keyf(kf, p));
                m.insert(keyf(kf, y), y);
            }
            None => {
                m.insert(keyf(kf, *x), *x);
            }
        }
    }
    m.into_values().collect()
}
fn apply(s: &St, v: Vec<V>) -> Vec<V> {
    match *s {
        St::Filter(k) => v.into_iter().filter(|x| pred(k, *x)).collect(),
        St::Map(k) => v.into_iter().map(|x| mapf(k, x)).collect(),
        St::Group(k) => runs(k, &v).iter().map(|p| pair(p) % 37).collect(),
        St::Merge(k, kf) => merged(k, kf, &v),
        St::Script(k) => {
            let mut out = vec![];
            let mut q = vec![];
            for x in v {
                let (o, p) = script(k, x);
                out.extend(o);
                q.extend(p);
            }
            out.extend(q.into_iter().flatten());
            out
        }
        St::Idle(_) => {
            let n = v.len() as V;
            let mut v = v;
            v.push(n);
            v
        }
    }
}
/// what a scripted stage returns at once, and what it keeps for the end (None: Continue(None))
fn script(k: u8, x: V) -> (Option<V>, Vec<Option<V>>) {
    let h = hash(k as u32, x, 9);
    let o = (h & 1 == 0).then_some(x + 1);
    let q = match (h >> 1) % 4 {
        0 => vec![],
        1 => vec![Some(x)],
        2 => vec![None, Some(x + 2), None],
        _ => vec![Some(x), Some(x + 1)],
    };
    (o, q)
}

// ---------------------------------------------------------------- the real thing
struct Script(u8, std::collections::VecDeque<Option<V>>);
impl AdaptFnTrait for Script {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, x: V) -> ControlFlow<(), Option<V>> {
        let (o, q) = script(self.0, x);
        self.1.extend(q);
        ControlFlow::Continue(o)
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<V>> {
        match self.1.pop_front() {
            Some(x) => ControlFlow::Continue(x),
            None => ControlFlow::Break(()),
        }
    }
}
struct Idle(u32, Option<V>);
impl AdaptFnTrait for Idle {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, x: V) -> ControlFlow<(), Option<V>> {
        self.1 = self.1.map(|n| n + 1);
        ControlFlow::Continue(Some(x))
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<V>> {
        if self.0 > 0 {
            self.0 -= 1;
            return ControlFlow::Continue(None);
        }
        match self.1.take() {
            Some(n) => ControlFlow::Continue(Some(n)),
            None => ControlFlow::Break(()),
        }
    }
}
type B1<O> = Box<dyn Fn(&V) -> O>;
type B2<O> = Box<dyn Fn(&V, &V) -> O>;
enum Any {
    F(Filter<V, B1<bool>>),
    M(Map<V, V, B1<V>>),
    G(GroupBy<V, B2<bool>>),
    X(Merge<V, B2<Option<V>>, B1<V>, V>),
    S(Script),
    I(Idle),
}
fn stage(s: &St) -> Any {
    match *s {
        St::Filter(k) => Any::F(Filter::new(Box::new(move |x| pred(k, *x)))),
        St::Map(k) => Any::M(Map::new(Box::new(move |x| mapf(k, *x)))),
        St::Group(k) => Any::G(GroupBy::new(Box::new(move |a, b| rel(k, *a, *b)))),
        St::Merge(k, kf) => Any::X(Merge::new(Box::new(move |a, b| mergef(k, *a, *b)), Box::new(move |x| keyf(kf, *x)))),
        St::Script(k) => Any::S(Script(k, Default::default())),
        St::Idle(n) => Any::I(Idle(n, Some(0))),
    }
}
fn conv(r: ControlFlow<(), Option<(V, V)>>) -> ControlFlow<(), Option<V>> {
    match r {
        ControlFlow::Continue(o) => ControlFlow::Continue(o.map(|p| pair(&p) % 37)),
        ControlFlow::Break(()) => ControlFlow::Break(()),
    }
}
impl AdaptFnTrait for Any {
    type Input = V;
    type Output = V;
    fn adapt(&mut self, x: V) -> ControlFlow<(), Option<V>> {
        match self {
            Any::F(a) => a.adapt(x),
            Any::M(a) => a.adapt(x),
            Any::G(a) => conv(a.adapt(x)),
            Any::X(a) => a.adapt(x),
            Any::S(a) => a.adapt(x),
            Any::I(a) => a.adapt(x),
        }
    }
    fn finalize(&mut self) -> ControlFlow<(), Option<V>> {
        match self {
            Any::F(a) => a.finalize(),
            Any::M(a) => a.finalize(),
            Any::G(a) => conv(a.finalize()),
            Any::X(a) => a.finalize(),
            Any::S(a) => a.finalize(),
            Any::I(a) => a.finalize(),
        }
    }
}
fn feed<Red: ReducerTrait>(mut r: Red, v: &[Red::Input]) -> Red::Reduced
where
    Red::Input: Clone,
{
    for x in v {
        r.next(x.clone());
    }
    r.finalize()
}
fn through(st: &[St], v: &[V]) -> Vec<V> {
    macro_rules! go {
        ($a:expr) => {
            feed($a.collect(), v)
        };
    }
    let n = NilAdapter::new;
    match st {
        [] => feed(Generator::fold(vec![], |mut a: Vec<V>, x| {
            a.push(x);
            a
        }), v),
        [a] => go!(Adapter::new(stage(a), n())),
        [a, b] => go!(Adapter::new(stage(b), Adapter::new(stage(a), n()))),
        [a, b, c] => go!(Adapter::new(stage(c), Adapter::new(stage(b), Adapter::new(stage(a), n())))),
        [a, b, c, d, ..] => go!(Adapter::new(stage(d), Adapter::new(stage(c), Adapter::new(stage(b), Adapter::new(stage(a), n()))))),
    }
}
fn inputs(s: &mut Src) -> Vec<V> {
    let n = s.below(14);
    let m = s.pick(&[3usize, 6, 12, 24]);
    (0..n).map(|_| s.below(m) as V).collect()
}
/// now and then a sequence longer than 16 bits can count. (Collecting it would take quadratic
/// time: the reducers clone what they hold, so long ones are only counted and summed.)
fn long(s: &mut Src) -> Option<Vec<V>> {
    if !s.one_in(2500) {
        return None;
    }
    let n = s.pick(&[256usize, 257, 4096, 65535, 65536, 65537, 66000, 70000, 131073]);
    let x = s.u8() as u32;
    let v: Vec<V> = (0..n as u32).map(|i| hash(x, i, 5) % 24).collect();
    s.note(|| format!("long inputs: {} x={}", list(&v), x));
    Some(v)
}
fn a_stage(s: &mut Src) -> St {
    if s.one_in(100) {
        return St::Idle(s.pick(&[1u32, 2, 5, 16, 33, 65, 129, 257, 1025, 5000, 65537]));
    }
    match s.below(5) {
        0 => St::Filter(s.u8()),
        1 => St::Map(s.u8()),
        2 => St::Group(s.u8()),
        3 => St::Merge(s.u8(), s.u8()),
        _ => St::Script(s.u8()),
    }
}
fn eq<T: PartialEq + Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    ensure!(got == want, "{}: got {}, must be {}", what, short(&got), short(&want));
    Ok(())
}
fn short<T: Debug>(x: &T) -> String {
    let s = format!("{:?}", x);
    match s.char_indices().nth(1500) {
        Some((n, _)) => format!("{}... ({} bytes)", &s[..n], s.len()),
        None => s,
    }
}
fn list(v: &[V]) -> String {
    match v.len() {
        0..=200 => format!("{:?}", v),
        n => format!("{} values {:?}...", n, &v[..20]),
    }
}
/// a stream transformation does not depend on what is behind it: inputs are handled one by one, in order
fn model(st: &[St], v: &[V]) -> Vec<V> {
    st.iter().fold(v.to_vec(), |v, s| apply(s, v))
}
pub fn c17(s: &mut Src) -> R {
    let n = s.below(5);
    let st: Vec<St> = (0..n).map(|_| if s.below(2) == 0 { St::Filter(s.u8()) } else { St::Map(s.u8()) }).collect();
    let v = inputs(s);
    let (p, q, f, g) = (s.u8(), s.u8(), s.u8(), s.u8());
    s.note(|| format!("stages={:?} inputs={} p={} q={} f={} g={}", st, list(&v), p, q, f, g));
    let w = model(&st, &v);
    eq("pipeline of stages", through(&st, &v), w.clone())?;
    let (pp, qq) = (move |x: &V| pred(p, *x), move |x: &V| pred(q, *x));
    let (ff, gg) = (move |x: &V| mapf(f, *x), move |x: &V| mapf(g, *x) as u64 + 1);
    let fl: Vec<V> = v.iter().copied().filter(|x| pp(x)).collect();
    eq("Generator::filter", feed(Generator::filter(pp).collect(), &v), fl.clone())?;
    eq("Generator::map", feed(Generator::map(ff).collect(), &v), v.iter().map(ff).collect())?;
    eq("filter.map", feed(Generator::filter(pp).map(gg).collect(), &v), fl.iter().map(gg).collect::<Vec<u64>>())?;
    eq("map.filter", feed(Generator::map(ff).filter(qq).collect(), &v), v.iter().map(ff).filter(qq).collect())?;
    eq("filter.filter.count", feed(Generator::filter(pp).filter(qq).count(), &v), fl.iter().filter(|x| qq(x)).count())?;
    eq("map.map.filter", feed(Generator::map(ff).map(gg).filter(|x| x % 3 != 0).collect(), &v), v.iter().map(ff).map(|x| gg(&x)).filter(|x| x % 3 != 0).collect::<Vec<u64>>())?;
    eq("NilAdapter.filter", feed(NilAdapter::default().filter(pp).collect(), &v), fl.clone())?;
    // elements without content, large ones, and ones that own memory
    eq("map to () .map.filter", feed(Generator::map(|_: &V| ()).map(|_: &()| 7u8).filter(|x: &u8| *x == 7).count(), &v), v.len())?;
    eq("filter.map to ()", feed(Generator::filter(pp).map(|_: &V| ()).filter(|_: &()| true).collect(), &v), vec![(); fl.len()])?;
    eq("map to String.map", feed(Generator::map(|x: &V| x.to_string()).filter(|x: &String| !x.ends_with('3')).map(|x: &String| format!("{}!", x)).collect(), &v),
        v.iter().map(|x| x.to_string()).filter(|x| !x.ends_with('3')).map(|x| x + "!").collect())?;
    eq("map to an array.filter", feed(Generator::map(|x: &V| [*x as u64; 40]).filter(|x: &[u64; 40]| x[39] > 1).map(|x: &[u64; 40]| x.iter().sum::<u64>()).collect(), &v),
        v.iter().map(|x| *x as u64 * 40).filter(|x| *x > 40).collect())?;
    eq("map to Option.filter.map", feed(Generator::map(move |x: &V| pred(p, *x).then_some(*x)).filter(|x: &Option<V>| x.is_some()).map(|x: &Option<V>| x.unwrap()).collect(), &v), fl)?;
    if let Some(v) = long(s) {
        eq("long filter.count", feed(Generator::filter(pp).count(), &v), v.iter().filter(|x| pp(x)).count())?;
        eq("long filter.map.fold", feed(Generator::filter(pp).map(gg).fold(0u64, |a: u64, x: u64| a * 3 % 1000003 + x), &v), v.iter().filter(|x| pp(x)).map(gg).fold(0, |a, x| a * 3 % 1000003 + x))?;
    }
    Ok(!w.is_empty())
}
pub fn c18(s: &mut Src) -> R {
    let v = inputs(s);
    let (k, p) = (s.u8(), s.u8());
    s.note(|| format!("relation={} inputs={} p={}", k, list(&v), p));
    let r = move |a: &V, b: &V| rel(k, *a, *b);
    let w = runs(k, &v);
    eq("Generator::groupby", feed(Generator::groupby(r).collect(), &v), w.clone())?;
    eq("map.groupby", feed(Generator::map(move |x: &V| mapf(p, *x)).groupby(r).collect(), &v), runs(k, &v.iter().map(|x| mapf(p, *x)).collect::<Vec<_>>()))?;
    eq("filter.groupby.map", feed(Generator::filter(move |x: &V| pred(p, *x)).groupby(r).map(pair).collect(), &v),
        runs(k, &v.iter().copied().filter(|x| pred(p, *x)).collect::<Vec<_>>()).iter().map(pair).collect())?;
    eq("groupby.groupby", feed(Generator::groupby(r).groupby(move |a: &(V, V), b: &(V, V)| rel(p, a.1, b.0)).map(|x| (x.0 .0, x.1 .1)).count(), &v), {
        // runs of runs, by hand
        let (mut n, mut i) = (0, 0);
        while i < w.len() {
            let mut j = i;
            while j + 1 < w.len() && rel(p, w[j].1, w[j + 1].0) {
                j += 1;
            }
            if j > i || rel(p, w[i].1, w[i].0) {
                n += 1;
            }
            i = j + 1;
        }
        n
    })?;
    // one stage, used twice: after the end it starts afresh
    let mut g = GroupBy::new(r);
    for _ in 0..2 {
        let mut got = vec![];
        for x in &v {
            match g.adapt(*x) {
                ControlFlow::Continue(o) => got.extend(o),
                ControlFlow::Break(()) => return Err("groupby ended by itself".into()),
            }
        }
        for n in 0.. {
            ensure!(n < 5, "finalize does not end");
            match g.finalize() {
                ControlFlow::Continue(o) => got.extend(o),
                ControlFlow::Break(()) => break,
            }
        }
        eq("groupby, step by step", got, w.clone())?;
    }
    if let Some(v) = long(s) {
        eq("long groupby.count", feed(Generator::groupby(r).count(), &v), runs(k, &v).len())?;
        eq("long groupby.map.fold", feed(Generator::groupby(r).map(pair).fold(0u32, |a: u32, x: V| hash(3, a, x)), &v), runs(k, &v).iter().map(pair).fold(0, |a, x| hash(3, a, x)))?;
    }
    Ok(w.len() > 1)
}
pub fn c19(s: &mut Src) -> R {
    let v = inputs(s);
    let (k, kf, p) = (s.u8(), s.u8(), s.u8());
    s.note(|| format!("merge={} key={} inputs={} p={}", k, kf, list(&v), p));
    let (m, f) = (move |a: &V, b: &V| mergef(k, *a, *b), move |x: &V| keyf(kf, *x));
    let w = merged(k, kf, &v);
    eq("Generator::merge", feed(Generator::merge(m, f).collect(), &v), w.clone())?;
    eq("merge.map", feed(Generator::merge(m, f).map(move |x: &V| mapf(p, *x)).collect(), &v), w.iter().map(|x| mapf(p, *x)).collect())?;
    eq("filter.merge.count", feed(Generator::filter(move |x: &V| pred(p, *x)).merge(m, f).count(), &v), merged(k, kf, &v.iter().copied().filter(|x| pred(p, *x)).collect::<Vec<_>>()).len())?;
    let r = move |a: &V, b: &V| rel(p, *a, *b);
    eq("groupby.map.merge", feed(Generator::groupby(r).map(|x| x.1).merge(m, f).collect(), &v), merged(k, kf, &runs(p, &v).iter().map(|x| x.1).collect::<Vec<_>>()))?;
    if let Some(v) = long(s) {
        eq("long merge", feed(Generator::merge(m, f).collect(), &v), merged(k, kf, &v))?;
        // many stored elements
        let n = v.len().min(3000) as V;
        let many: Vec<V> = (0..n).map(|i| if p % 2 == 0 { i } else { n - i }).chain([n, 0, n / 2, n + 1]).collect();
        let none = feed(Generator::merge(|_: &V, _: &V| None, |x: &V| *x).collect(), &many);
        eq("long merge that combines nothing", none, many.iter().copied().collect::<std::collections::BTreeSet<V>>().into_iter().collect())?;
        let same = feed(Generator::merge(|a: &V, b: &V| (a == b).then_some(*a), |x: &V| *x).count(), &many);
        // an arriving element that goes with one that came long ago
        let mut late: Vec<V> = (0..n).collect();
        late.push(100_000 + s.pick(&[0, 1, n / 2, n - 1]).min(n - 1));
        let g = feed(Generator::merge(|a: &V, b: &V| (a % 100_000 == b % 100_000).then_some(*a.max(b)), |x: &V| *x).collect(), &late);
        let l = late[n as usize];
        eq("long merge with an early element", g, (0..n).filter(|x| *x != l % 100_000).chain([l]).collect::<Vec<V>>())?;
        eq("long merge of equal elements", same, many.iter().collect::<std::collections::BTreeSet<_>>().len())?;
    }
    Ok(w.len() > 1)
}
pub fn c20(s: &mut Src) -> R {
    let v = inputs(s);
    let (k, p, q) = (s.u8(), s.u8(), s.u8());
    let st = a_stage(s);
    let n = 2 + s.below(3);
    let chain: Vec<St> = (0..n).map(|_| a_stage(s)).collect();
    s.note(|| format!("key={} p={} q={} stage={:?} chain={:?} inputs={}", k, p, q, st, chain, list(&v)));
    // what stages keep for the end goes through the stages behind them
    eq("chain of stages", through(&chain, &v), model(&chain, &v))?;
    let kf = move |x: &V| keyf(k, *x);
    let mut per: BTreeMap<V, Vec<V>> = BTreeMap::new();
    for x in &v {
        per.entry(kf(x)).or_default().push(*x);
    }
    let each = |f: &dyn Fn(V, &Vec<V>) -> Vec<V>| -> BTreeMap<V, Vec<V>> { per.iter().map(|(k, v)| (*k, f(*k, v))).collect() };
    eq("split.count", feed(Generator::split(kf, |_: &V| Generator::count()), &v), per.iter().map(|(k, v)| (*k, v.len())).collect())?;
    eq("split.collect", feed(Generator::split(kf, |_: &V| Generator::map(|x: &V| *x).collect()), &v), per.clone())?;
    eq("split.stage", feed(Generator::split(kf, |_: &V| Adapter::new(stage(&st), NilAdapter::new()).collect()), &v), each(&|_, v| apply(&st, v.clone())))?;
    // the reducer depends on its key
    eq("split.fold", feed(Generator::split(kf, |k: &V| Generator::fold(*k, |a: V, x: V| a.wrapping_mul(31).wrapping_add(x))), &v),
        per.iter().map(|(k, v)| (*k, v.iter().fold(*k, |a, x| a.wrapping_mul(31).wrapping_add(*x)))).collect())?;
    // behind another stage, and a split in a split
    let w: Vec<V> = v.iter().copied().filter(|x| pred(p, *x)).collect();
    let mut two: BTreeMap<V, BTreeMap<V, usize>> = BTreeMap::new();
    for x in &w {
        *two.entry(kf(x)).or_default().entry(keyf(q, *x)).or_default() += 1;
    }
    eq("filter.split.split", feed(Generator::filter(move |x: &V| pred(p, *x)).split(kf, |_: &V| Generator::split(move |x: &V| keyf(q, *x), |_: &V| Generator::count())), &v), two)?;
    let g = runs(p, &v);
    let mut t: BTreeMap<V, usize> = BTreeMap::new();
    g.iter().for_each(|x| *t.entry(kf(&x.0)).or_default() += 1);
    eq("groupby.split", feed(Generator::groupby(move |a: &V, b: &V| rel(p, *a, *b)).split(move |x: &(V, V)| keyf(k, x.0), |_: &V| Generator::count()), &v), t)?;
    if let Some(v) = long(s) {
        let mut per: BTreeMap<V, usize> = BTreeMap::new();
        v.iter().for_each(|x| *per.entry(kf(x)).or_default() += 1);
        eq("long split.count", feed(Generator::split(kf, |_: &V| Generator::count()), &v), per)?;
        // many keys
        let wide: Vec<V> = v.iter().enumerate().map(|(i, x)| (i as V).wrapping_mul(if p % 2 == 0 { 1 } else { 0x9e37_79b1 }) / 3 + x % 2).collect();
        let mut per: BTreeMap<V, usize> = BTreeMap::new();
        wide.iter().for_each(|x| *per.entry(*x).or_default() += 1);
        eq("long split.count with many keys", feed(Generator::split(|x: &V| *x, |_: &V| Generator::count()), &wide), per)?;
    }
    Ok(per.len() > 1)
}
pub fn c21(s: &mut Src) -> R {
    let v = inputs(s);
    let (st1, st2) = (a_stage(s), a_stage(s));
    let (p, q) = (s.u8(), s.u8());
    s.note(|| format!("stages={:?} {:?} p={} q={} inputs={}", st1, st2, p, q, list(&v)));
    let step = |a: V, x: V| hash(p as u32, a, x);
    eq("fold", feed(Generator::fold(q as V, step), &v), v.iter().fold(q as V, |a, x| step(a, *x)))?;
    // a function with a state of its own
    let mut n = 0u32;
    let mut m = 0u32;
    eq("fold with state", feed(Generator::fold(vec![], |mut a: Vec<V>, x: V| { n += 1; a.push(x * 100 + n); a }), &v), v.iter().map(|x| { m += 1; x * 100 + m }).collect())?;
    eq("count", feed(Generator::count(), &v), v.len())?;
    let us: Vec<usize> = v.iter().map(|x| *x as usize).collect();
    eq("sum", feed(Generator::sum(), &us), us.iter().sum())?;
    eq("map.sum", feed(Generator::map(|x: &usize| x * 3).sum(), &us), us.iter().map(|x| x * 3).sum())?;
    eq("filter.fold", feed(Generator::filter(move |x: &V| pred(p, *x)).fold(1u32, step), &v), v.iter().filter(|x| pred(p, **x)).fold(1, |a, x| step(a, *x)))?;
    let one = |st: &St| Adapter::new(stage(st), NilAdapter::new()).collect();
    eq("fork", feed(Generator::fork(one(&st1), one(&st2)), &v), (apply(&st1, v.clone()), apply(&st2, v.clone())))?;
    eq("map.fork", feed(Generator::map(move |x: &V| mapf(q, *x)).fork(Generator::count(), one(&st2)), &v), (v.len(), apply(&st2, v.iter().map(|x| mapf(q, *x)).collect())))?;
    let f3 = feed(Generator::fork(one(&st1), Generator::fork(one(&st2), Generator::count())), &v);
    eq("fork.fork", f3, (apply(&st1, v.clone()), (apply(&st2, v.clone()), v.len())))?;
    let x1 = Adapter::new(stage(&st1), NilAdapter::new());
    eq("stage.fork", feed(x1.fork(Generator::count(), one(&st2)), &v), { let a = apply(&st1, v.clone()); (a.len(), apply(&st2, a)) })?;
    let x1 = Adapter::new(stage(&st1), NilAdapter::new());
    eq("stage.fold", feed(x1.fold(7u32, step), &v), apply(&st1, v.clone()).iter().fold(7, |a, x| step(a, *x)))?;
    if let Some(v) = long(s) {
        eq("long count", feed(Generator::count(), &v), v.len())?;
        eq("long map.count", feed(Generator::map(move |x: &V| mapf(q, *x)).count(), &v), v.len())?;
        let a = apply(&st1, v.clone());
        eq("long stage.count", feed(Adapter::new(stage(&st1), NilAdapter::new()).count(), &v), a.len())?;
        eq("long stage.fold", feed(Adapter::new(stage(&st1), NilAdapter::new()).fold(1u32, step), &v), a.iter().fold(1, |a, x| step(a, *x)))?;
        eq("long fold", feed(Generator::fold(q as V, step), &v), v.iter().fold(q as V, |a, x| step(a, *x)))?;
        eq("long map.sum", feed(Generator::map(|x: &V| *x as usize * 3).sum(), &v), v.iter().map(|x| *x as usize * 3).sum())?;
        eq("long fork", feed(Generator::fork(Generator::count(), Generator::fold(1u32, step)), &v), (v.len(), v.iter().fold(1, |a, x| step(a, *x))))?;
    }
    Ok(v.len() > 1)
}
pub fn c22(s: &mut Src) -> R {
    let v = inputs(s);
    let st = a_stage(s);
    let (k, p) = (s.u8(), s.u8());
    s.note(|| format!("stage={:?} key={} relation={} inputs={}", st, k, p, list(&v)));
    let w = apply(&st, v.clone());
    // pulled to the end and twice behind it
    let mut it = FromAdaptFn::new(stage(&st), v.clone().into_iter());
    let mut got = vec![];
    let mut after = 0;
    while got.len() <= w.len() && after < 2 {
        match it.next() {
            Some(x) => got.push(x),
            None => after += 1,
        }
    }
    eq("FromAdaptFn", got, w.clone())?;
    ways!(s, "FromAdaptFn", FromAdaptFn::new(stage(&st), v.clone().into_iter()), w, |x| x);
    ways!(s, "iterator.groupby", v.clone().into_iter().groupby(|a: &V, b: &V| rel(p, *a, *b)), runs(p, &v), |x| x);
    eq("iterator.groupby", v.clone().into_iter().groupby(|a: &V, b: &V| rel(p, *a, *b)).take(v.len() + 1).collect::<Vec<_>>(), runs(p, &v))?;
    let mut per: BTreeMap<V, Vec<V>> = BTreeMap::new();
    for x in &v {
        per.entry(keyf(k, *x)).or_default().push(*x);
    }
    eq("iterator.split", v.clone().into_iter().split(|x: &V| keyf(k, *x), |_: &V| Generator::count()), per.iter().map(|(k, v)| (*k, v.len())).collect())?;
    eq("iterator.split.stage", v.clone().into_iter().split(|x: &V| keyf(k, *x), |_: &V| Adapter::new(stage(&st), NilAdapter::new()).collect()),
        per.iter().map(|(k, v)| (*k, apply(&st, v.clone()))).collect())?;
    eq("groupby.map.split", v.clone().into_iter().groupby(|a: &V, b: &V| rel(p, *a, *b)).map(|r| pair(&r)).split(|x: &V| x % 5, |_: &V| Generator::count()), {
        let mut m = BTreeMap::new();
        runs(p, &v).iter().for_each(|r| *m.entry(pair(r) % 5).or_default() += 1);
        m
    })?;
    if let Some(v) = long(s) {
        eq("long FromAdaptFn", FromAdaptFn::new(stage(&st), v.clone().into_iter()).collect::<Vec<V>>(), apply(&st, v.clone()))?;
        eq("long iterator.groupby", v.clone().into_iter().groupby(|a: &V, b: &V| rel(p, *a, *b)).count(), runs(p, &v).len())?;
        let mut per: BTreeMap<V, usize> = BTreeMap::new();
        v.iter().for_each(|x| *per.entry(keyf(k, *x)).or_default() += 1);
        eq("long iterator.split", v.clone().into_iter().split(|x: &V| keyf(k, *x), |_: &V| Generator::count()), per)?;
    }
    Ok(!w.is_empty())
}
