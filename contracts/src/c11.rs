//! C11: effect collections behave as mathematical sets.
//!
//! Sets are compared with their membership bit mask. As the effect looked at is symbolic, a
//! statement about its membership is one about every effect's.
use crate::common::*;
use colorz::{Effect, EffectFlags};

fn has(m: u16, i: usize) -> bool {
    m >> i & 1 == 1
}
/// is `f` the set `m`, looking at an arbitrary effect?
fn agrees(f: EffectFlags, m: u16) -> bool {
    let i = any_index(13);
    f.is(ALL[i]) == has(m, i)
}
/// an arbitrary set and its mask
fn any_set() -> (EffectFlags, u16) {
    let m = any_mask();
    (flags(m), m)
}
/// the set of the first `n` of these effects
fn listed(list: &[usize], n: usize) -> u16 {
    let mut m = 0;
    let mut i = 0;
    while i < list.len() {
        if i < n {
            m |= 1 << list[i];
        }
        i += 1;
    }
    m
}
fn any_list<const K: usize>() -> [usize; K] {
    let mut l = [0; K];
    let mut i = 0;
    while i < K {
        l[i] = any_index(13);
        i += 1;
    }
    l
}
fn array<const K: usize>() {
    let l = any_list::<K>();
    let mut a = [Effect::Bold; K];
    let mut i = 0;
    while i < K {
        a[i] = ALL[l[i]];
        i += 1;
    }
    let f = EffectFlags::from_array(a);
    assert!(agrees(f, listed(&l, K)), "from_array has exactly the listed effects");
    assert!(f == flags(listed(&l, K)), "from_array equals the set of the listed effects");
}

/// any iterator of up to K effects, with any hint about its length that the trait allows
struct Items<const K: usize> {
    list: [usize; K],
    n: usize,
    at: usize,
    low: usize,
    high: Option<usize>,
}
impl<const K: usize> Items<K> {
    fn any() -> Self {
        let n = any_index(K + 1);
        let low = any_index(K + 1);
        kani::assume(low <= n);
        let high = if kani::any() { Some(kani::any()) } else { None };
        if let Some(h) = high {
            kani::assume(h >= n);
        }
        Items { list: any_list(), n, at: 0, low, high }
    }
}
impl<const K: usize> Iterator for Items<K> {
    type Item = Effect;
    fn next(&mut self) -> Option<Effect> {
        if self.at == self.n {
            return None;
        }
        self.at += 1;
        Some(ALL[self.list[self.at - 1]])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.low.saturating_sub(self.at), self.high)
    }
}

proof! { unwind 18:
    fn building_blocks() {
        let e = any_index(13);
        assert!(!EffectFlags::new().is(ALL[e]), "new() has no effect");
        assert!(!EffectFlags::default().is(ALL[e]), "default() has no effect");
        assert!(EffectFlags::all().is(ALL[e]), "all() has every effect");
        assert!(EffectFlags::new().is_plain() && !EffectFlags::all().is_plain(), "new() is empty, all() is not");
        assert!(EffectFlags::new() == flags(0) && EffectFlags::default() == flags(0) && EffectFlags::all() == flags(0x1fff), "equality is set equality");
        // `flags` itself: the set reached by adding any effects in order
        let m = any_mask();
        assert!(agrees(flags(m), m), "adding effects gives the set of them");
    }
    fn add() {
        let ((f, m), e) = (any_set(), any_index(13));
        let want = m | 1 << e;
        assert!(agrees(f.with(ALL[e]), want), "with adds exactly that effect");
        assert!(f.with(ALL[e]) == flags(want), "with adds exactly that effect");
        let mut g = f;
        g.set(ALL[e]);
        assert!(agrees(g, want) && g == f.with(ALL[e]), "set adds exactly that effect");
    }
    fn remove() {
        let ((f, m), e) = (any_set(), any_index(13));
        let want = m & !(1 << e);
        assert!(agrees(f.without(ALL[e]), want), "without removes exactly that effect");
        assert!(f.without(ALL[e]) == flags(want), "without removes exactly that effect");
        let mut g = f;
        g.unset(ALL[e]);
        assert!(agrees(g, want) && g == f.without(ALL[e]), "unset removes exactly that effect");
    }
    fn toggle() {
        let ((f, m), e) = (any_set(), any_index(13));
        let want = m ^ 1 << e;
        assert!(agrees(f.toggled(ALL[e]), want), "toggled changes exactly that effect");
        assert!(f.toggled(ALL[e]) == flags(want), "toggled changes exactly that effect");
        let mut g = f;
        g.toggle(ALL[e]);
        assert!(agrees(g, want) && g == f.toggled(ALL[e]), "toggle changes exactly that effect");
    }
    fn queries() {
        let ((f, m), (g, n)) = (any_set(), any_set());
        kani::cover!(f == g && m != 0);
        assert!(f.is_plain() == (m == 0), "is_plain is emptiness");
        assert!(f.is_any(g) == (m & n != 0), "is_any is intersection");
        assert!((f == g) == (m == n), "equality is set equality");
        assert!(agrees(f, m) && agrees(g, n), "queries change nothing");
    }
    fn style_queries() {
        let (f, m) = any_set();
        let e = any_index(13);
        let style = colorz::Style::new().fg(O::any()).effect_flags(f);
        assert!(style.is(ALL[e]) == has(m, e), "a style has exactly its effects");
    }
    fn array_0() { array::<0>() }
    fn array_1() { array::<1>() }
    fn array_2() { array::<2>() }
    fn array_3() { array::<3>() }
    fn array_5() { array::<5>() }
    fn array_13() { array::<13>() }
    fn array_16() { array::<16>() }
    fn iterator() {
        let items = Items::<6>::any();
        let want = listed(&items.list, items.n);
        kani::cover!(items.n == 6 && items.low == 0);
        let f: EffectFlags = items.collect();
        assert!(agrees(f, want), "collecting gives exactly the listed effects");
        assert!(f == flags(want), "collecting gives exactly the listed effects");
    }
    fn iterator_of_references() {
        let l = any_list::<4>();
        let mut a = [ALL[l[0]], ALL[l[1]], ALL[l[2]], ALL[l[3]]];
        let n = any_index(5);
        let f: EffectFlags = if kani::any() { EffectFlags::from_iter(&a[..n]) } else { EffectFlags::from_iter(&mut a[..n]) };
        assert!(f == flags(listed(&l, n)), "collecting references gives exactly the listed effects");
    }
    /// {any set} iterate {its members in declaration order, each once, then the end for good}
    fn iterate() {
        let (f, m) = any_set();
        let mut it = if kani::any() { f.iter() } else { f.into_iter() };
        let mut i = 0;
        while i < 13 {
            if has(m, i) {
                assert!(it.next() == Some(ALL[i]), "yields each member once, in declaration order");
            }
            i += 1;
        }
        assert!(it.next().is_none(), "then ends");
        assert!(it.next().is_none(), "and stays at the end");
    }
    /// the other ways to consume the iterator agree with `next`, from any point of the iteration
    fn iterate_otherwise() {
        let (it, rest) = midway();
        let n = rest.count_ones() as usize;
        let (low, high) = it.size_hint();
        assert!(low <= n && match high { Some(h) => n <= h, None => true }, "size_hint bounds the number of members left");
        let mut copy = it.clone();
        match kani::any::<u8>() {
            0 => assert!(it.count() == n, "count counts the members left"),
            1 => assert!(it.last() == if rest == 0 { None } else { Some(ALL[15 - rest.leading_zeros() as usize]) }, "last is the last member"),
            2 => {
                let mut seen = 0;
                it.for_each(|e| seen |= 1 << e as u8);
                assert!(seen == rest, "for_each visits the members left");
            }
            _ => assert!(EffectFlags::from_iter(it) == flags(rest), "collecting gives the set of members left"),
        }
        assert!(copy.next() == first(rest), "a clone continues from the same point");
    }
    fn skip() {
        let (mut it, rest) = midway();
        let k = any_index(if cfg!(colorz_deep) { 15 } else { 4 });
        let mut want = rest;
        let mut i = 0;
        while i < 15 {
            if i < k {
                want &= want.wrapping_sub(1);
            }
            i += 1;
        }
        assert!(it.nth(k) == first(want), "nth skips members in order");
    }
    /// {an iterator over any number of effects} collect {the set of them}, by induction: see `Fold`
    fn iterator_of_any_length() {
        let m = any_mask();
        let f: EffectFlags = Fold { set: m }.collect();
        assert!(f == flags(m), "collecting gives exactly the listed effects");
    }
}
fn first(m: u16) -> Option<Effect> {
    if m == 0 {
        None
    } else {
        Some(ALL[m.trailing_zeros() as usize])
    }
}
fn midway() -> (colorz::EffectFlagsIter, u16) {
    let (f, m) = any_set();
    let mut it = f.iter();
    let mut rest = m;
    if kani::any() {
        let _ = it.next();
        rest &= rest.wrapping_sub(1);
    }
    (it, rest)
}
/// the identity of a type that is not known to be 'static
fn type_id<T>() -> core::any::TypeId {
    trait Id {
        fn id(&self) -> core::any::TypeId
        where
            Self: 'static;
    }
    impl<T> Id for core::marker::PhantomData<T> {
        fn id(&self) -> core::any::TypeId
        where
            Self: 'static,
        {
            core::any::TypeId::of::<T>()
        }
    }
    let p = core::marker::PhantomData::<T>;
    Id::id(unsafe { core::mem::transmute::<&dyn Id, &(dyn Id + 'static)>(&p) })
}
/// An iterator over any number of effects, whose set is `set`. It is consumed through `fold`, which
/// proves by induction that the folding function builds the set of the effects it is given:
/// the initial value is the empty set, and from any set each effect leads to that set with it.
struct Fold {
    set: u16,
}
impl Iterator for Fold {
    type Item = Effect;
    fn next(&mut self) -> Option<Effect> {
        panic!("LIMIT: the proof is about collecting by fold")
    }
    fn fold<B, F: FnMut(B, Effect) -> B>(self, init: B, mut f: F) -> B {
        if type_id::<B>() != type_id::<EffectFlags>() {
            panic!("LIMIT: the proof is about folding sets")
        }
        let get = |b: &B| unsafe { core::mem::transmute_copy::<B, EffectFlags>(b) };
        let put = |f: &EffectFlags| unsafe { core::mem::transmute_copy::<EffectFlags, B>(f) };
        assert!(get(&init) == flags(0), "collecting starts from the empty set");
        let (m, e) = (any_mask(), any_index(13));
        let next = f(put(&flags(m)), ALL[e]);
        assert!(get(&next) == flags(m | 1 << e), "collecting adds each effect");
        core::mem::forget((init, next));
        put(&flags(self.set))
    }
}
