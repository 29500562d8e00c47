// Merging of an included dictionary (C18).
verus! {
// ---- SPECIFICATION ----
// nesting depth; TRUSTED: values are finite trees
pub uninterp spec fn depth(h: Hash) -> nat;
pub axiom fn axiom_depth(h: Hash, i: int) requires 0 <= i < hents(h).len(), hents(h)[i].1 is Hash ensures depth(hv(hents(h)[i].1)) < depth(h);
// what an including file's value `x` becomes when the included file has `v` under the same key
pub open spec fn merged_value(x: Yaml, v: Yaml, y: Yaml) -> bool decreases (if v is Hash { 2 * depth(hv(v)) + 2 } else { 0 }) {
    if yeq(x, v) { y == x } else { match (x, v) {
        (Yaml::Array(a), Yaml::Array(b)) => match y { Yaml::Array(c) => c@ == a@ + b@, _ => false },
        (Yaml::Array(a), Yaml::String(_)) => match y { Yaml::Array(c) => c@ == (if ahas(a@, v) { a@ } else { a@.push(v) }), _ => false },
        (Yaml::String(_), Yaml::Array(b)) => match y { Yaml::Array(c) => c@ == seq![x] + drop_eq(b@, x), _ => false },
        (Yaml::Hash(h), Yaml::Hash(g)) => match y { Yaml::Hash(k) => merged(h, g, k), _ => false },
        _ => y == x,
    } }
}
pub open spec fn special(k: Yaml) -> bool { ystr(k) == Some("_path"@) || ystr(k) == Some("_include"@) }
// entry `i` of the included dictionary, merged
pub open spec fn entry_in(p: Hash, c: Hash, i: int, q: Hash) -> bool decreases 2 * depth(c) + 1, 0nat when 0 <= i < hents(c).len() via dec_entry {
    let (k, v) = hents(c)[i];
    !special(k) ==> match hget(p, k) { None => hget(q, k) == Some(v), Some(x) => hget(q, k) is Some && merged_value(x, v, hget(q, k).unwrap()) }
}
// every key of either, and nothing else
pub open spec fn merged(p: Hash, c: Hash, q: Hash) -> bool decreases 2 * depth(c) + 1, 1nat {
    &&& forall|i: int| #![trigger hents(c)[i]] 0 <= i < hents(c).len() ==> entry_in(p, c, i, q)
    &&& forall|k: Yaml| special(k) || hget(c, k) is None ==> #[trigger] hget(q, k) == hget(p, k)
}
#[via_fn] proof fn dec_entry(p: Hash, c: Hash, i: int, q: Hash) { if hents(c)[i].1 is Hash { axiom_depth(c, i); } }
proof fn lemma_no_drop(a: Seq<Yaml>, y: Yaml) requires !ahas(a, y) ensures drop_eq(a, y) == a decreases a.len() {
    reveal(Seq::filter);
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.drop_last().len() implies !#[trigger] yeq(a.drop_last()[i], y) by { assert(!yeq(a[i], y)); }
        lemma_no_drop(a.drop_last(), y); assert(!yeq(a[a.len() - 1], y)); assert(a.drop_last().push(a.last()) =~= a);
    }
}
//@fn src/patch/mod.rs | update_dict
//@attr #[verifier::loop_isolation(false)]
//@sub child.iter() =>> child
//@sub el if el == val =>> el if yaml_eq(el, val)
//@sub a.retain(|x| x != s) =>> drop_equal(&mut a, s)
//@spec
    ensures r is Ok ==> merged(*old(parent), *child, *final(parent)),
    decreases depth(*child),
//@loop 1 it hoistv
    invariant it.seq() == g1_, eqe(g1_, hents(*child)),
        forall|j: int| 0 <= j < it.index() ==> #[trigger] entry_in(*old(parent), *child, j, *parent),
        forall|k: Yaml| special(k) || (forall|j: int| 0 <= j < it.index() ==> !yeq(hents(*child)[j].0, k)) ==> #[trigger] hget(*parent, k) == hget(*old(parent), k),
//@start
    proof { axiom_string_eq(); }
//@loop-start 1
    broadcast use {axiom_yeq_refl, axiom_yeq_sym, axiom_yeq_str, axiom_hset};
    let ghost i_ = it.index() as int; let ghost p1_ = *parent; let ghost k_ = *key; let ghost v_ = *val;
    proof {
        assert(*g1_[i_].0 == hents(*child)[i_].0 && *g1_[i_].1 == hents(*child)[i_].1);
        if v_ is Hash { axiom_depth(*child, i_); }
        assert forall|j: int| 0 <= j < i_ implies !yeq(hents(*child)[j].0, k_) by { if yeq(hents(*child)[j].0, k_) { axiom_keys(*child, j, i_); } }
        assert(hget(p1_, k_) == hget(*old(parent), k_));
    }
//@before "a.insert(0"
    let ghost a1_ = a@;
    proof { if !ahas(a1_, *s) { assert(a1_ =~= drop_eq(a1_, *s)) by { lemma_no_drop(a1_, *s); } } }
//@after "a.insert(0"
    proof { assert(a@ =~= seq![*s] + a1_); }
//@loop-end 1
    proof {
        let x = hget(p1_, k_).unwrap(); let y = hget(*parent, k_).unwrap();
        if !special(k_) && hget(p1_, k_) is Some {
            assert(hget(*parent, k_) is Some);
            if yeq(x, v_) { assert(y == x); } else {
                assert(x is Array && v_ is Array ==> merged_value(x, v_, y));
                assert(x is Array && v_ is String ==> merged_value(x, v_, y));
                assert(x is Array && !(v_ is Array) && !(v_ is String) ==> merged_value(x, v_, y));
                assert(x is Hash  ==> merged_value(x, v_, y));
                assert(x is String && v_ is Array ==> merged_value(x, v_, y));
                assert(x is String && !(v_ is Array) ==> merged_value(x, v_, y));
                assert(!(x is String) && !(x is Hash) && !(x is Array) ==> merged_value(x, v_, y));
            }
        } else if !special(k_) { assert(hget(*parent, k_) == Some(v_)); }
    }
    proof {
        assert forall|j: int| 0 <= j < i_ implies #[trigger] entry_in(*old(parent), *child, j, *parent) by { assert(entry_in(*old(parent), *child, j, p1_)); assert(!yeq(hents(*child)[j].0, k_)); }
        assert(entry_in(*old(parent), *child, i_, *parent));
        assert forall|k: Yaml| special(k) || (forall|j: int| 0 <= j < i_ + 1 ==> !yeq(hents(*child)[j].0, k)) implies #[trigger] hget(*parent, k) == hget(*old(parent), k) by {
            assert(hget(p1_, k) == hget(*old(parent), k)); 
            assert(!special(k) ==> !yeq(hents(*child)[i_].0, k));
        }
    }
//@after-loop 1
    proof {
        assert forall|j: int| 0 <= j < hents(*child).len() implies #[trigger] entry_in(*old(parent), *child, j, *parent) by {}
        assert(forall|i: int| #![trigger hents(*child)[i]] 0 <= i < hents(*child).len() ==> entry_in(*old(parent), *child, i, *parent));
        assert forall|k: Yaml| special(k) || hget(*child, k) is None implies #[trigger] hget(*parent, k) == hget(*old(parent), k) by {
            if !special(k) { assert forall|j: int| 0 <= j < hents(*child).len() implies !yeq(hents(*child)[j].0, k) by { assert(!ha(*child, k, j)); } }
        }
    }
    proof { assert(merged(*old(parent), *child, *parent)); }
//@end
}
