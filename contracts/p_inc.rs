// Including files (C18, C19).
verus! {
// ---- SPECIFICATION ----
// what following the includes of one dictionary did, step by step
pub ghost enum Inc { N {
    // the dictionary once the elements in it are done; for each element, its own includes and the files they named
    mid: Hash, subs: Seq<Inc>, svs: Seq<Seq<Seq<char>>>,
    // before each file of the list and at the end: the dictionary, and the files named so far
    st: Seq<Hash>, vs: Seq<Seq<Seq<char>>>,
    // for each file: what it included itself, what it is once that is done, the files that named
    kids: Seq<Inc>, kq: Seq<Hash>, kv: Seq<Seq<Seq<char>>>,
} }
pub open spec fn under_(h: Hash) -> Seq<char> { match yget(h, "_path"@) { Some(y) => ystr(y).unwrap(), None => Seq::empty() } }
// an element of a device that asks for includes of its own
pub open spec fn nested(e: (Yaml, Yaml)) -> bool { !has_prefix(kstr(e.0), seq!['_']) && e.1 is Hash && yget(hv(e.1), "_include"@) is Some }
pub open spec fn flat_(v: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { flat_(v.drop_last()) + v.last() } }
pub open spec fn at_path(h: Hash, p: Seq<char>) -> Hash { hset(h, yt("_path"@), yt(p)) }
// following the includes of `p` turns it into `q` and reads the files `v`, in that order
pub open spec fn takes(t: Inc, fx: Seq<Ev>, p: Hash, q: Hash, v: Seq<Seq<char>>) -> bool decreases t {
    match t { Inc::N { mid, subs, svs, st, vs, kids, kq, kv } => {
        let rels = svec(mid, "_include"@);
        // an element with includes of its own takes them first; the others stay as they are
        &&& hents(mid).len() == hents(p).len() && subs.len() == hents(p).len() && svs.len() == hents(p).len()
        &&& forall|i: int| #![trigger hents(mid)[i]] 0 <= i < subs.len() ==> hents(mid)[i].0 == hents(p)[i].0
            && if nested(hents(p)[i]) { hents(mid)[i].1 is Hash && takes(subs[i], fx, at_path(hv(hents(p)[i].1), under_(p)), hv(hents(mid)[i].1), svs[i]) }
               else { hents(mid)[i].1 == hents(p)[i].1 && svs[i].len() == 0 }
        // then the listed files in order, each with its own includes followed first, each at most once
        &&& st.len() == rels.len() + 1 && vs.len() == st.len() && kids.len() == rels.len() && kq.len() == rels.len() && kv.len() == rels.len()
        &&& st[0] == mid && vs[0] == flat_(svs)
        &&& forall|j: int| #![trigger kq[j]] #![trigger rels[j]] #![trigger vs[j]] 0 <= j < kids.len() ==> {
            let path = abs_of(under_(p), rels[j]); let docs = docs_of(disk(path, fx));
            if vs[j].contains(path) { st[j + 1] == st[j] && vs[j + 1] == vs[j] }
            else if docs.len() == 0 { st[j + 1] == st[j] && vs[j + 1] == vs[j].push(path) }
            else { docs[0] is Hash && takes(kids[j], fx, at_path(hv(docs[0]), path), kq[j], kv[j]) && merged(st[j], kq[j], st[j + 1]) && vs[j + 1] == vs[j].push(path) + kv[j] }
        }
        // and the directive is gone
        &&& q == hrem(st.last(), yt("_include"@)) && v == vs.last()
    } }
}
pub proof fn lemma_pv(a: Seq<PathBuf>, b: Seq<PathBuf>, p: PathBuf) ensures pv(a + b) == pv(a) + pv(b), pv(a.push(p)) == pv(a).push(p@) { assert(pv(a + b) =~= pv(a) + pv(b)); assert(pv(a.push(p)) =~= pv(a).push(p@)); }
pub proof fn lemma_suffix() ensures forall|a: Seq<PathBuf>, b: Seq<PathBuf>| #![trigger a + b] (a + b).subrange(a.len() as int, (a + b).len() as int) == b {
    assert forall|a: Seq<PathBuf>, b: Seq<PathBuf>| #![trigger a + b] (a + b).subrange(a.len() as int, (a + b).len() as int) == b by { assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b); }
}
//@fn src/patch/mod.rs | yaml_includes
//@sig pub fn yaml_includes(parent: &mut Hash, Tracked(w): Tracked<&mut World>) -> (r: Result<Vec<PathBuf>>)
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::exec_allows_no_decreases_clause]
//@guards
//@sub .map(|s| s.to_string()).collect::<Vec<_>>() =>>
//@sub parent.str_vec_iter("_include")? =>> own_strs(parent.str_vec_iter("_include")?)
//@spec
    ensures final(w).fx == old(w).fx, r is Ok ==> final(w).reads == old(w).reads + pv(r.unwrap()@) && exists|t: Inc| takes(t, old(w).fx, *old(parent), *final(parent), pv(r.unwrap()@)),
//@start
    broadcast use axiom_str_of;
    let ghost p_ = *parent; let ghost fx_ = w.fx; let ghost r0_ = w.reads;
    let ghost mut subs_: Seq<Inc> = Seq::empty(); let ghost mut svs_: Seq<Seq<Seq<char>>> = Seq::empty();
//@after "let self_path"
    proof { axiom_yget(p_, y_path); assert(self_path@ == under_(p_)); assert(y_path == yt("_path"@)); assert(pv(Seq::<PathBuf>::empty()) =~= Seq::empty()); }
//@loop 1 it hoist
    invariant it.seq() == g1_, w.fx == fx_, w.reads == r0_ + pv(included@), subs_.len() == it.index(), svs_.len() == it.index(), pv(included@) == flat_(svs_),
        forall|j: int| #![trigger g1_[j]] 0 <= j < it.index() ==> if nested(hents(p_)[j]) { *final(g1_[j].1) is Hash && takes(subs_[j], fx_, at_path(hv(hents(p_)[j].1), under_(p_)), hv(*final(g1_[j].1)), svs_[j]) } else { *final(g1_[j].1) == hents(p_)[j].1 && svs_[j].len() == 0 },
//@loop-start 1
    broadcast use axiom_str_of;
    let ghost i_ = it.index() as int; let ghost e_ = hents(p_)[i_]; let ghost inc_ = included@; let ghost mut t_: Inc = arbitrary();
    proof { assert(*g1_[i_].0 == e_.0 && *g1_[i_].1 == e_.1); if e_.1 is Hash { axiom_yget(hv(e_.1), yt("_include"@)); } }
//@after "included.extend(yaml_includes(val)?)"
    proof {
        lemma_suffix(); let v_ = included@.subrange(inc_.len() as int, included@.len() as int);
        t_ = choose|t: Inc| takes(t, fx_, at_path(hv(e_.1), under_(p_)), *val, pv(v_));
        assert(included@ =~= inc_ + v_); lemma_pv(inc_, v_, arbitrary());
        assert(takes(t_, fx_, at_path(hv(e_.1), under_(p_)), *val, pv(v_)));
    }
//@loop-end 1
    proof {
        lemma_suffix(); let v_ = included@.subrange(inc_.len() as int, included@.len() as int);
        assert(included@ =~= inc_ + v_); lemma_pv(inc_, v_, arbitrary());
        assert(svs_.push(pv(v_)).drop_last() =~= svs_);
        subs_ = subs_.push(t_); svs_ = svs_.push(pv(v_));
    }
//@before-loop 2
    let ghost mid_ = *parent; let ghost rels_ = svec(mid_, "_include"@);
    let ghost mut st_: Seq<Hash> = seq![mid_]; let ghost mut vs_: Seq<Seq<Seq<char>>> = seq![pv(included@)];
    let ghost mut kids_: Seq<Inc> = Seq::empty(); let ghost mut kq_: Seq<Hash> = Seq::empty(); let ghost mut kv_: Seq<Seq<Seq<char>>> = Seq::empty();
//@loop 2 it2 hoistv
    invariant it2.seq() == g2_, g2_.len() == rels_.len(), forall|j: int| #![trigger g2_[j]] 0 <= j < g2_.len() ==> g2_[j]@ == rels_[j],
        w.fx == fx_, w.reads == r0_ + pv(included@), st_.len() == it2.index() + 1, vs_.len() == st_.len(), kids_.len() == it2.index(), kq_.len() == it2.index(), kv_.len() == it2.index(),
        st_[0] == mid_, vs_[0] == flat_(svs_), *parent == st_.last(), pv(included@) == vs_.last(),
        forall|j: int| #![trigger kq_[j]] #![trigger rels_[j]] #![trigger vs_[j]] 0 <= j < kids_.len() ==> {
            let path = abs_of(under_(p_), rels_[j]); let docs = docs_of(disk(path, fx_));
            if vs_[j].contains(path) { st_[j + 1] == st_[j] && vs_[j + 1] == vs_[j] }
            else if docs.len() == 0 { st_[j + 1] == st_[j] && vs_[j + 1] == vs_[j].push(path) }
            else { docs[0] is Hash && takes(kids_[j], fx_, at_path(hv(docs[0]), path), kq_[j], kv_[j]) && merged(st_[j], kq_[j], st_[j + 1]) && vs_[j + 1] == vs_[j].push(path) + kv_[j] }
        },
//@loop-start 2
    broadcast use axiom_str_of;
    let ghost j_ = it2.index() as int; let ghost mut t_: Inc = arbitrary(); let ghost mut q_: Hash = arbitrary(); let ghost mut v_: Seq<Seq<char>> = Seq::empty(); let ghost inc_ = included@;
    let ghost path_ = abs_of(under_(p_), rels_[j_]); let ghost docs_ = docs_of(disk(path_, fx_));
//@after "read_to_string"
    proof { assert(contents@ =~= disk(path_, fx_)); }
//@after "included.push("
    let ghost inc1_ = included@;
    proof { lemma_pv(inc_, inc_, path); assert(w.reads =~= r0_ + pv(included@)); }
//@after "included.extend(yaml_includes(child)?)"
    proof {
        lemma_suffix(); let s_ = included@.subrange(inc1_.len() as int, included@.len() as int);
        v_ = pv(s_); q_ = *child;
        assert(included@ =~= inc1_ + s_); lemma_pv(inc1_, s_, arbitrary());
        t_ = choose|t: Inc| takes(t, fx_, at_path(hv(docs_[0]), path_), q_, v_);
        assert(takes(t_, fx_, at_path(hv(docs_[0]), path_), q_, v_));
        assert(w.reads =~= r0_ + pv(included@));
    }
//@loop-end 2
    proof {
        assert(vs_[j_] == pv(inc_) && st_[j_] == st_.last());
        if vs_[j_].contains(path_) { assert(*parent == st_[j_]); assert(pv(included@) == vs_[j_]); }
        else if docs_.len() == 0 { assert(*parent == st_[j_]); assert(pv(included@) == vs_[j_].push(path_)); }
        else { assert(docs_[0] is Hash); assert(takes(t_, fx_, at_path(hv(docs_[0]), path_), q_, v_)); assert(merged(st_[j_], q_, *parent)); assert(pv(included@) == vs_[j_].push(path_) + v_); }
    }
    let ghost os_ = st_; let ghost ov_ = vs_; let ghost ok_ = kids_; let ghost oq_ = kq_; let ghost okv_ = kv_;
    proof { st_ = st_.push(*parent); vs_ = vs_.push(pv(included@)); kids_ = kids_.push(t_); kq_ = kq_.push(q_); kv_ = kv_.push(v_);
        assert(st_[j_ + 1] == *parent && vs_[j_ + 1] == pv(included@) && kids_[j_] == t_ && kq_[j_] == q_ && kv_[j_] == v_);
        assert forall|j: int| #![trigger kq_[j]] #![trigger rels_[j]] #![trigger vs_[j]] 0 <= j < kids_.len() implies ({
            let path = abs_of(under_(p_), rels_[j]); let docs = docs_of(disk(path, fx_));
            if vs_[j].contains(path) { st_[j + 1] == st_[j] && vs_[j + 1] == vs_[j] }
            else if docs.len() == 0 { st_[j + 1] == st_[j] && vs_[j + 1] == vs_[j].push(path) }
            else { docs[0] is Hash && takes(kids_[j], fx_, at_path(hv(docs[0]), path), kq_[j], kv_[j]) && merged(st_[j], kq_[j], st_[j + 1]) && vs_[j + 1] == vs_[j].push(path) + kv_[j] }
        }) by { if j < j_ { assert(kq_[j] == oq_[j] && kids_[j] == ok_[j] && kv_[j] == okv_[j] && st_[j] == os_[j] && st_[j + 1] == os_[j + 1] && vs_[j] == ov_[j] && vs_[j + 1] == ov_[j + 1]); assert(oq_[j] == oq_[j]); } }
    }
//@before "parent.remove("
    let ghost tree_ = Inc::N { mid: mid_, subs: subs_, svs: svs_, st: st_, vs: vs_, kids: kids_, kq: kq_, kv: kv_ };
//@after "parent.remove("
    proof { assert(takes(tree_, fx_, p_, *parent, pv(included@))); }
//@end
}
