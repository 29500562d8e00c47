//@use p_base.rs
//@wrap filter_map flat_map into_iter map collect sort_by_key
verus! {
//@type src/interrupts/svd_reader.rs | Svd
//@type src/interrupts/svd_reader.rs | PeripheralList
//@type src/interrupts/svd_reader.rs | PeripheralXml
//@type src/interrupts/svd_reader.rs | Interrupt
//@type src/interrupts/svd_reader.rs | Peripheral
//@type src/interrupts/interrupt_list.rs | InterruptWithPeriph
//@type src/interrupts/interrupt_list.rs | InterruptList
// TRUSTED wrappers (std): an iterator by value is the vector of what it yields
pub open spec fn concat<U>(s: Seq<Vec<U>>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
pub open spec fn somes<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } } }
pub trait VecI<T> {
    fn into_iter_v(self) -> Vec<T>;
    fn map_v<U, F: FnMut(T) -> U>(self, f: F) -> Vec<U> where Self: Sized requires forall|x: T| #[trigger] f.requires((x,));
    fn flat_map_v<U, F: FnMut(T) -> Vec<U>>(self, f: F) -> Vec<U> where Self: Sized requires forall|x: T| #[trigger] f.requires((x,));
    fn filter_map_v<U, F: FnMut(T) -> Option<U>>(self, f: F) -> Vec<U> where Self: Sized requires forall|x: T| #[trigger] f.requires((x,));
    fn collect_v(self) -> Vec<T>;
    fn sort_by_key_v<F: FnMut(&T) -> u32>(&mut self, f: F) where Self: Sized requires forall|x: &T| #[trigger] f.requires((x,));
}
impl<T> VecI<T> for Vec<T> {
    fn into_iter_v(self) -> (r: Vec<T>) ensures r@ == self@ { self }
    fn collect_v(self) -> (r: Vec<T>) ensures r@ == self@ { self }
    #[verifier::external_body]
    fn map_v<U, F: FnMut(T) -> U>(self, f: F) -> (r: Vec<U>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])
    { self.into_iter().map(f).collect() }
    #[verifier::external_body]
    fn flat_map_v<U, F: FnMut(T) -> Vec<U>>(self, f: F) -> (r: Vec<U>)
        ensures exists|v: Seq<Vec<U>>| #[trigger] concat(v) == r@ && v.len() == self@.len() && forall|i: int| 0 <= i < v.len() ==> f.ensures((self@[i],), #[trigger] v[i])
    { self.into_iter().flat_map(f).collect() }
    #[verifier::external_body]
    fn filter_map_v<U, F: FnMut(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        ensures exists|v: Seq<Option<U>>| #[trigger] somes(v) == r@ && v.len() == self@.len() && forall|i: int| 0 <= i < v.len() ==> f.ensures((self@[i],), #[trigger] v[i])
    { self.into_iter().filter_map(f).collect() }
    // a stable sort: ascending keys, and the elements of each key in their old order
    #[verifier::external_body]
    fn sort_by_key_v<F: FnMut(&T) -> u32>(&mut self, f: F)
        ensures forall|g: spec_fn(T) -> u32| (forall|x: &T, k: u32| f.ensures((x,), k) ==> k == g(*x)) ==> #[trigger] stable_sorted(old(self)@, final(self)@, g)
    { self.sort_by_key(f) }
}
pub open spec fn with_key<T>(s: Seq<T>, g: spec_fn(T) -> u32, k: u32) -> Seq<T> { s.filter(|x: T| g(x) == k) }
pub open spec fn stable_sorted<T>(s: Seq<T>, t: Seq<T>, g: spec_fn(T) -> u32) -> bool {
    (forall|i: int, j: int| 0 <= i < j < t.len() ==> g(t[i]) <= g(t[j])) && (forall|k: u32| #[trigger] with_key(t, g, k) == with_key(s, g, k))
}
pub open spec fn value_of() -> spec_fn(InterruptWithPeriph) -> u32 { |x: InterruptWithPeriph| x.interrupt.value }
// the interrupts of one peripheral, each with that peripheral's name
pub open spec fn of_periph(p: Peripheral, v: Seq<InterruptWithPeriph>) -> bool {
    v.len() == p.interrupt@.len() && forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).peripheral@ == p.name@ && v[j].interrupt == p.interrupt@[j]
}
pub open spec fn ordered(s: Seq<InterruptWithPeriph>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].interrupt.value <= s[j].interrupt.value }
//@fn src/interrupts/interrupt_list.rs | InterruptList | get_ordered_interrupts
//@sig pub fn get_ordered_interrupts(peripherals: Vec<Peripheral>) -> (r: Vec<InterruptWithPeriph>)
//@spec
    // every interrupt of every peripheral once, by number, equal numbers in document order
    ensures ordered(r@), exists|v: Seq<Vec<InterruptWithPeriph>>| v.len() == peripherals@.len() && (forall|i: int| 0 <= i < v.len() ==> of_periph(peripherals@[i], #[trigger] v[i]@))
        && stable_sorted(#[trigger] concat(v), r@, value_of()),
//@closure 1 |$1: Peripheral| -> (b: Vec<InterruptWithPeriph>)
    ensures of_periph($1, b@)
//@closure 2 |$1: Interrupt| -> (b: InterruptWithPeriph)
    ensures b.interrupt == $1, b.peripheral@ == peripheral@
//@closure 3 |$1: &InterruptWithPeriph| -> (b: u32)
    ensures b == $1.interrupt.value
//@before "interrupt_list.sort_by_key"
    let ghost l0_ = interrupt_list@;
//@tail
    proof { assert(stable_sorted(l0_, interrupt_list@, value_of()));
        assert forall|i: int, j: int| 0 <= i < j < interrupt_list@.len() implies interrupt_list@[i].interrupt.value <= interrupt_list@[j].interrupt.value by { assert(value_of()(interrupt_list@[i]) <= value_of()(interrupt_list@[j])); } }
//@end
//@fn src/interrupts/interrupt_list.rs | InterruptList | new
//@name InterruptList__new
//@sig pub fn InterruptList__new(peripherals: Vec<Peripheral>) -> (r: InterruptList)
//@sub InterruptList::get_ordered_interrupts =>> get_ordered_interrupts
//@spec
    ensures ordered(r.ordered_interrupts@), exists|v: Seq<Vec<InterruptWithPeriph>>| v.len() == peripherals@.len() && (forall|i: int| 0 <= i < v.len() ==> of_periph(peripherals@[i], #[trigger] v[i]@))
        && stable_sorted(#[trigger] concat(v), r.ordered_interrupts@, value_of()),
//@end
//@fn src/interrupts/interrupt_list.rs | InterruptList | ordered
//@self InterruptList
//@spec
    ensures r@ == self_.ordered_interrupts@
//@end
// what the file says about one peripheral
pub open spec fn listed(x: PeripheralXml, o: Option<Peripheral>) -> bool {
    match x.interrupt { None => o is None, Some(v) => o == Some(Peripheral { name: x.name, interrupt: v }) }
}
//@fn src/interrupts/svd_reader.rs | peripherals_with_interrupts
//@sig pub fn peripherals_with_interrupts(svd: Svd) -> (r: Vec<Peripheral>)
//@sub let reader = BufReader::new(svd); =>>
//@sub let svd: Svd = de::from_reader(reader).expect("svd not formatted correctly"); =>>
//@spec
    ensures exists|v: Seq<Option<Peripheral>>| v.len() == svd.peripherals.peripheral@.len() && (forall|i: int| 0 <= i < v.len() ==> listed(svd.peripherals.peripheral@[i], #[trigger] v[i]))
        && #[trigger] somes(v) == r@,
//@closure 1 |$1: PeripheralXml| -> (b: Option<Peripheral>)
    ensures listed($1, b)
//@end
pub open spec fn unused(s: Seq<InterruptWithPeriph>, n: int, x: u32) -> bool {
    (forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).interrupt.value != x) && exists|i: int| 0 <= i < n && x < (#[trigger] s[i]).interrupt.value
}
#[verifier::inline] pub open spec fn gs(v: Vec<u32>) -> Seq<u32> { v@ }
pub proof fn lemma_step(s: Seq<InterruptWithPeriph>, n: int, g: Seq<u32>, h: Seq<u32>)
    requires ordered(s), 0 <= n < s.len(),
        forall|i: int, j: int| 0 <= i < j < g.len() ==> g[i] < g[j],
        forall|x: u32| #[trigger] g.contains(x) <==> unused(s, n, x),
        ({ let lo = if n == 0 { 0int } else { s[n - 1].interrupt.value + 1 }; let hi = s[n].interrupt.value as int;
           h.len() == g.len() + (if hi > lo { hi - lo } else { 0 }) && (forall|j: int| 0 <= j < g.len() ==> h[j] == g[j])
           && forall|j: int| g.len() <= j < h.len() ==> #[trigger] h[j] == lo + (j - g.len()) }),
    ensures forall|i: int, j: int| 0 <= i < j < h.len() ==> h[i] < h[j],
        forall|x: u32| #[trigger] h.contains(x) <==> unused(s, n + 1, x),
{
    let lo = if n == 0 { 0int } else { s[n - 1].interrupt.value + 1 }; let hi = s[n].interrupt.value as int;
    assert forall|x: u32| #[trigger] h.contains(x) implies unused(s, n + 1, x) by {
        let j = choose|j: int| 0 <= j < h.len() && h[j] == x;
        if j < g.len() { assert(g[j] == x); assert(g.contains(x)); let i = choose|i: int| 0 <= i < n && x < (#[trigger] s[i]).interrupt.value; assert(s[i].interrupt.value <= s[n].interrupt.value); }
        else { assert(x < s[n].interrupt.value); assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] s[i]).interrupt.value != x by { if i < n - 1 { assert(s[i].interrupt.value <= s[n - 1].interrupt.value); } } }
    }
    assert forall|x: u32| unused(s, n + 1, x) implies #[trigger] h.contains(x) by {
        let i = choose|i: int| 0 <= i < n + 1 && x < (#[trigger] s[i]).interrupt.value;
        if i < n { assert(unused(s, n, x)); assert(g.contains(x)); let j = choose|j: int| 0 <= j < g.len() && g[j] == x; assert(h[j] == x); }
        else if n > 0 && x < s[n - 1].interrupt.value { assert(unused(s, n, x)); assert(g.contains(x)); let j = choose|j: int| 0 <= j < g.len() && g[j] == x; assert(h[j] == x); }
        else { if n > 0 { assert(s[n - 1].interrupt.value != x); } assert(h[g.len() + (x - lo)] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies h[i] < h[j] by {
        if i < g.len() && j >= g.len() { assert(g[i] == h[i]); assert(g.contains(g[i])); let k = choose|k: int| 0 <= k < n && g[i] < (#[trigger] s[k]).interrupt.value; if k < n - 1 { assert(s[k].interrupt.value <= s[n - 1].interrupt.value); } }
    }
}
//@fn src/interrupts/interrupt_list.rs | InterruptList | gaps
//@self InterruptList
//@spec
    requires ordered(self_.ordered_interrupts@)
    // the unused numbers below the greatest used one, ascending
    ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> r@[i] < r@[j],
        forall|x: u32| #[trigger] r@.contains(x) <==> unused(self_.ordered_interrupts@, self_.ordered_interrupts@.len() as int, x),
//@start
    let ghost s_ = self_.ordered_interrupts@;
//@loop 1 it
    invariant s_ == self_.ordered_interrupts@, ordered(s_), it.seq().len() == s_.len(), forall|j: int| 0 <= j < s_.len() ==> *(#[trigger] it.seq()[j]) == s_[j],
        last_interrupt == if it.index() == 0 { -1int } else { s_[it.index() - 1].interrupt.value as int },
        forall|i: int, j: int| 0 <= i < j < gs(gaps).len() ==> gs(gaps)[i] < gs(gaps)[j],
        forall|x: u32| #[trigger] gs(gaps).contains(x) <==> unused(s_, it.index(), x),
//@loop-start 1
    let ghost g0_ = gs(gaps);
//@loop 2 it2
    invariant g0_.len() <= gs(gaps).len(), gs(gaps).len() == g0_.len() + it2.index(), forall|j: int| 0 <= j < g0_.len() ==> gs(gaps)[j] == g0_[j],
        required_interrupt >= 0,
        it2.seq().len() == (if curr_interrupt > required_interrupt { curr_interrupt - required_interrupt } else { 0 }),
        forall|j: int| 0 <= j < it2.seq().len() ==> #[trigger] it2.seq()[j] == required_interrupt + j,
        forall|j: int| g0_.len() <= j < gs(gaps).len() ==> #[trigger] gs(gaps)[j] == required_interrupt + (j - g0_.len()),
//@after-loop 2
    proof { lemma_step(s_, it.index(), g0_, gs(gaps)); }
//@end
}
fn main(){}
