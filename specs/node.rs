// ---- routing trie (properties C07-C10, C14) -----------------------------------------------------------------------
pub type Node = C_PathMatcherNode;
pub type LR = C_PathMatcherLookupResult;
pub type Path = Seq<Seq<u8>>;
pub open spec fn mk_node(r: Map<Seq<u8>, LR>, c: Map<Seq<u8>, Option<Node>>, w: bool) -> Node { C_PathMatcherNode { result_map_: r, children_: c, wildcard_: w } }
pub open spec fn new_node(w: bool) -> Node { mk_node(Map::empty(), Map::empty(), w) }
pub open spec fn has_child(n: Node, k: Seq<u8>) -> bool { n.children_.contains_key(k) && n.children_[k] is Some }
pub open spec fn child(n: Node, k: Seq<u8>) -> Node { n.children_[k]->0 }
// the node reached by following p
pub open spec fn find(n: Node, p: Path) -> Option<Node> decreases p.len() {
    if p.len() == 0 { Option::Some(n) } else if has_child(n, p[0]) { find(child(n, p[0]), p.drop_first()) } else { Option::None }
}
// every child exists, exactly the "**" nodes are marked, every stored result is non-null
pub open spec fn node1_ok(n: Node) -> bool {
    (forall|k: Seq<u8>| #[trigger] n.children_.contains_key(k) ==> n.children_[k] is Some && child(n, k).wildcard_ == (k == star2()))
    && (forall|k: Seq<u8>| #[trigger] n.result_map_.contains_key(k) ==> n.result_map_[k].data != 0)
}
pub open spec fn node_ok(n: Node) -> bool { forall|p: Path| #![trigger find(n, p)] find(n, p) is Some ==> node1_ok(find(n, p)->0) }
// what is stored for the segment pattern t and the key (HTTP method followed by the verb)
pub open spec fn entry(n: Node, t: Path, key: Seq<u8>) -> Option<LR> {
    if find(n, t) is Some && (find(n, t)->0).result_map_.contains_key(key) { Option::Some((find(n, t)->0).result_map_[key]) } else { Option::None }
}
pub open spec fn lr(data: int, dup: bool) -> LR { C_PathMatcherLookupResult { data: data, is_multiple: dup } }
// insertion: the entry of (t, key) is created, or replaced and marked; nothing else changes
pub open spec fn ins_val(n: Node, t: Path, key: Seq<u8>, data: int, mark: bool) -> LR {
    if entry(n, t, key) is Some { lr(data, mark || (entry(n, t, key)->0).is_multiple) } else { lr(data, false) }
}
pub open spec fn ins_value(n: Node, n2: Node, t: Path, key: Seq<u8>, data: int, mark: bool) -> bool {
    entry(n2, t, key) == Option::Some(ins_val(n, t, key, data, mark))
}
pub open spec fn ins_frame(n: Node, n2: Node, t: Path, key: Seq<u8>) -> bool {
    forall|t2: Path, key2: Seq<u8>| (t2 != t || key2 != key) ==> #[trigger] entry(n2, t2, key2) == entry(n, t2, key2)
}
pub open spec fn sub_path(s: Path, i: int, j: int) -> Path { s.subrange(i, j) }

// a node is bigger than its children
pub proof fn lemma_below(n: Node)
    ensures forall|k: Seq<u8>| #[trigger] n.children_.contains_key(k) && n.children_[k] is Some ==> decreases_to!(n => n.children_[k]->0)
{
    assert forall|k: Seq<u8>| #[trigger] n.children_.contains_key(k) && n.children_[k] is Some implies decreases_to!(n => n.children_[k]->0) by {
        vstd::map::axiom_map_index_decreases(n.children_, k);
    }
}
pub proof fn lemma_ok_child(n: Node, k: Seq<u8>)
    ensures node_ok(n) ==> node1_ok(n), node_ok(n) && n.children_.contains_key(k) ==> has_child(n, k) && node_ok(child(n, k)) && child(n, k).wildcard_ == (k == star2()),
{
    assert(find(n, Seq::empty()) == Option::Some(n));
    if node_ok(n) && n.children_.contains_key(k) {
        assert forall|p: Path| #![trigger find(child(n, k), p)] find(child(n, k), p) is Some implies node1_ok(find(child(n, k), p)->0) by {
            let q = seq![k] + p;
            assert(q.drop_first() =~= p);
            assert(find(n, q) == find(child(n, k), p));
        }
    }
}
pub proof fn lemma_ok_children(r: Map<Seq<u8>, LR>, c: Map<Seq<u8>, Option<Node>>, w: bool)
    ensures node_ok(mk_node(r, c, w)) ==> (forall|k: Seq<u8>| #[trigger] c.contains_key(k) ==> c[k] is Some && node_ok(c[k]->0)),
{
    assert forall|k: Seq<u8>| node_ok(mk_node(r, c, w)) && #[trigger] c.contains_key(k) implies c[k] is Some && node_ok(c[k]->0) by { lemma_ok_child(mk_node(r, c, w), k); }
}
pub proof fn lemma_ok_new(w: bool)
    ensures node_ok(new_node(w)), forall|t: Path, key: Seq<u8>| #[trigger] entry(new_node(w), t, key) is None,
{
    assert forall|p: Path| #![trigger find(new_node(w), p)] find(new_node(w), p) is Some implies p.len() == 0 by {}
}
// insertion at this node
pub proof fn lemma_ins_here(n: Node, n2: Node, key: Seq<u8>, data: int, mark: bool)
    ensures node_ok(n) && data != 0 && n2.children_ == n.children_ && n2.wildcard_ == n.wildcard_
        && n2.result_map_ =~= n.result_map_.insert(key, ins_val(n, Seq::empty(), key, data, mark))
        ==> ins_value(n, n2, Seq::empty(), key, data, mark) && ins_frame(n, n2, Seq::empty(), key) && node_ok(n2),
{
    if node_ok(n) && data != 0 && n2.children_ == n.children_ && n2.wildcard_ == n.wildcard_
        && n2.result_map_ =~= n.result_map_.insert(key, ins_val(n, Seq::empty(), key, data, mark)) {
        let e = Seq::<Seq<u8>>::empty();
        assert(find(n2, e) == Option::Some(n2));
        assert(find(n, e) == Option::Some(n));
        assert forall|t2: Path, key2: Seq<u8>| (t2 != e || key2 != key) implies #[trigger] entry(n2, t2, key2) == entry(n, t2, key2) by {
            if t2.len() == 0 { assert(t2 =~= e); } else { assert(find(n2, t2) == find(n, t2)); }
        }
        assert forall|p: Path| #![trigger find(n2, p)] find(n2, p) is Some implies node1_ok(find(n2, p)->0) by {
            if p.len() == 0 { assert(node1_ok(n)); } else { assert(find(n2, p) == find(n, p)); }
        }
    }
}
// insertion below child k
pub open spec fn child_or_new(n: Node, k: Seq<u8>) -> Node { if has_child(n, k) { child(n, k) } else { new_node(k == star2()) } }
pub proof fn lemma_ins_child(n: Node, n2: Node, s: Path, i: int, j: int, key: Seq<u8>, data: int, mark: bool)
    ensures 0 <= i < j <= s.len() && node_ok(n) && has_child(n2, s[i]) && n2.wildcard_ == n.wildcard_ && n2.result_map_ == n.result_map_
        && n2.children_ =~= n.children_.insert(s[i], Option::Some(child(n2, s[i])))
        && node_ok(child(n2, s[i])) && child(n2, s[i]).wildcard_ == (s[i] == star2())
        && ins_value(child_or_new(n, s[i]), child(n2, s[i]), sub_path(s, i + 1, j), key, data, mark)
        && ins_frame(child_or_new(n, s[i]), child(n2, s[i]), sub_path(s, i + 1, j), key)
        ==> ins_value(n, n2, sub_path(s, i, j), key, data, mark) && ins_frame(n, n2, sub_path(s, i, j), key) && node_ok(n2)
            && (entry(n, sub_path(s, i, j), key) is None <==> entry(child_or_new(n, s[i]), sub_path(s, i + 1, j), key) is None),
{
    if 0 <= i < j <= s.len() && node_ok(n) && has_child(n2, s[i]) && n2.wildcard_ == n.wildcard_ && n2.result_map_ == n.result_map_
        && n2.children_ =~= n.children_.insert(s[i], Option::Some(child(n2, s[i])))
        && node_ok(child(n2, s[i])) && child(n2, s[i]).wildcard_ == (s[i] == star2())
        && ins_value(child_or_new(n, s[i]), child(n2, s[i]), sub_path(s, i + 1, j), key, data, mark)
        && ins_frame(child_or_new(n, s[i]), child(n2, s[i]), sub_path(s, i + 1, j), key) {
        let k = s[i];
        let t = sub_path(s, i, j);
        let c = child_or_new(n, k);
        let c2 = child(n2, k);
        lemma_ok_child(n, k);
        lemma_ok_new(k == star2());
        assert(t[0] == k);
        assert(t.drop_first() =~= sub_path(s, i + 1, j));
        assert(t.len() > 0);
        // the entry of a path starting with k is the entry of its tail below the child
        assert forall|p: Path, q: Seq<u8>| p.len() > 0 && p[0] == k implies #[trigger] entry(n, p, q) == entry(c, p.drop_first(), q) by {
            if !has_child(n, k) { assert(entry(c, p.drop_first(), q) is None); }
        }
        assert(entry(n, t, key) == entry(c, t.drop_first(), key));
        assert(entry(n2, t, key) == entry(c2, t.drop_first(), key));
        assert forall|t2: Path, key2: Seq<u8>| (t2 != t || key2 != key) implies #[trigger] entry(n2, t2, key2) == entry(n, t2, key2) by {
            if t2.len() > 0 && t2[0] == k {
                assert(entry(n2, t2, key2) == entry(c2, t2.drop_first(), key2));
                if t2.drop_first() == t.drop_first() { assert(t2 =~= seq![k] + t2.drop_first()); assert(t =~= seq![k] + t.drop_first()); }
                assert(entry(c2, t2.drop_first(), key2) == entry(c, t2.drop_first(), key2));
            } else if t2.len() > 0 {
                assert(n2.children_.contains_key(t2[0]) == n.children_.contains_key(t2[0]));
                assert(find(n2, t2) == find(n, t2));
            }
        }
        assert forall|p: Path| #![trigger find(n2, p)] find(n2, p) is Some implies node1_ok(find(n2, p)->0) by {
            if p.len() == 0 {
                assert(node1_ok(n));
                assert(find(n2, p) == Option::Some(n2));
            } else if p[0] == k {
                assert(find(n2, p) == find(c2, p.drop_first()));
            } else {
                assert(find(n2, p) == find(n, p));
            }
        }
    }
}

// ---- lookup: identical segment, then extending a "**", then "*", then "**"; at the end the exact key before "*" ----
pub open spec fn any_method() -> Seq<u8> { seq![42u8] }
pub open spec fn result_for(n: Node, key: Seq<u8>) -> Option<LR> {
    if n.result_map_.contains_key(key) { Option::Some(n.result_map_[key]) }
    else if n.result_map_.contains_key(any_method()) { Option::Some(n.result_map_[any_method()]) }
    else { Option::None }
}
pub open spec fn or_else(a: Option<LR>, b: Option<LR>) -> Option<LR> { if a is Some { a } else { b } }
pub open spec fn best(n: Node, parts: Path, i: int, end: int, key: Seq<u8>) -> Option<LR> decreases end - i {
    if i >= end || i < 0 || end > parts.len() {
        or_else(result_for(n, key), if has_child(n, star2()) { result_for(child(n, star2()), key) } else { Option::None })
    } else {
        or_else(best_child(n, parts[i], parts, i, end, key),
            if n.wildcard_ { best(n, parts, i + 1, end, key) } else {
                or_else(best_child(n, any_seg(), parts, i, end, key), or_else(best_child(n, star(), parts, i, end, key), best_child(n, star2(), parts, i, end, key)))
            })
    }
}
pub open spec fn best_child(n: Node, k: Seq<u8>, parts: Path, i: int, end: int, key: Seq<u8>) -> Option<LR> decreases end - i, 0int {
    if i < end && has_child(n, k) { best(child(n, k), parts, i + 1, end, key) } else { Option::None }
}
pub open spec fn or_old(a: Option<LR>, old: LR) -> LR { if a is Some { a->0 } else { old } }
pub proof fn lemma_result_for(n: Node, key: Seq<u8>)
    ensures node1_ok(n) && result_for(n, key) is Some ==> (result_for(n, key)->0).data != 0
{}
pub proof fn lemma_best_nonnull(n: Node, parts: Path, i: int, end: int, key: Seq<u8>)
    requires node_ok(n)
    ensures best(n, parts, i, end, key) is Some ==> (best(n, parts, i, end, key)->0).data != 0
    decreases end - i
{
    lemma_ok_child(n, star2()); lemma_ok_child(n, star()); lemma_ok_child(n, any_seg());
    if i >= end || i < 0 || end > parts.len() {
        lemma_result_for(n, key);
        if has_child(n, star2()) { lemma_ok_child(child(n, star2()), star2()); lemma_result_for(child(n, star2()), key); }
    } else {
        lemma_ok_child(n, parts[i]);
        if has_child(n, parts[i]) { lemma_best_nonnull(child(n, parts[i]), parts, i + 1, end, key); }
        if n.wildcard_ { lemma_best_nonnull(n, parts, i + 1, end, key); }
        if has_child(n, star()) { lemma_best_nonnull(child(n, star()), parts, i + 1, end, key); }
        if has_child(n, star2()) { lemma_best_nonnull(child(n, star2()), parts, i + 1, end, key); }
        if has_child(n, any_seg()) { lemma_best_nonnull(child(n, any_seg()), parts, i + 1, end, key); }
        assert(best_child(n, parts[i], parts, i, end, key) is Some ==> (best_child(n, parts[i], parts, i, end, key)->0).data != 0);
        assert(best_child(n, star(), parts, i, end, key) is Some ==> (best_child(n, star(), parts, i, end, key)->0).data != 0);
        assert(best_child(n, star2(), parts, i, end, key) is Some ==> (best_child(n, star2(), parts, i, end, key)->0).data != 0);
        assert(best_child(n, any_seg(), parts, i, end, key) is Some ==> (best_child(n, any_seg(), parts, i, end, key)->0).data != 0);
    }
}
pub proof fn lemma_mk_node()
    ensures forall|n: Node| #[trigger] mk_node(n.result_map_, n.children_, n.wildcard_) == n
{}
