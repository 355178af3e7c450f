// ---- type information (properties C25, C26) ------------------------------------------------------------------------------
pub struct Mutex { pub held: bool }
// a TypeInfo over the type resolver src; locked: every access to it holds one lock (LockedTypeInfo)
pub struct Info { pub locked: bool, pub src: int }
// what a TypeInfo answers (0: not found); attributes of the opaque objects
pub uninterp spec fn ti_field(src: int, ty: int, name: Seq<u8>) -> int;
pub uninterp spec fn ti_type(src: int, url: Seq<u8>) -> int;
pub uninterp spec fn ti_enum(src: int, url: Seq<u8>) -> int;
pub uninterp spec fn ti_resolve(src: int, url: Seq<u8>) -> StatusOr<int>;
pub uninterp spec fn pb_name(o: int) -> Seq<u8>;
pub uninterp spec fn pb_kind(o: int) -> int;
pub uninterp spec fn pb_cardinality(o: int) -> int;
pub uninterp spec fn pb_type_url(o: int) -> Seq<u8>;
// the field a name denotes: as written, or percent-decoded
pub open spec fn th_field(src: int, ty: int, name: Seq<u8>) -> int {
    let f = ti_field(src, ty, name);
    if f != 0 { f } else if escaped_from(name, 0, 2, false) { ti_field(src, ty, decode(name, 2, false)) } else { 0 }
}
// resolution of the path from type ty
pub open spec fn th_path(src: int, ty: int, names: Seq<Seq<u8>>) -> Option<Seq<int>> decreases names.len() {
    if names.len() == 0 { Option::Some(Seq::empty()) }
    else {
        let f = th_field(src, ty, names[0]);
        if f == 0 { Option::None }
        else if names.len() == 1 { Option::Some(seq![f]) }
        else if pb_kind(f) != 11 || ti_type(src, pb_type_url(f)) == 0 { Option::None }
        else { match th_path(src, ti_type(src, pb_type_url(f)), names.drop_first()) { Option::None => Option::None, Option::Some(p) => Option::Some(seq![f] + p) } }
    }
}
// done: fields found so far; ty: the type reached, in which the names from i on are to be found
pub open spec fn th_rest(src: int, ty: int, names: Seq<Seq<u8>>, i: int, done: Seq<int>) -> Option<Seq<int>> {
    match th_path(src, ty, names.skip(i)) { Option::None => Option::None, Option::Some(p) => Option::Some(done + p) }
}
pub proof fn lemma_th_step(src: int, ty: int, names: Seq<Seq<u8>>, i: int, done: Seq<int>)
    ensures i == names.len() ==> th_rest(src, ty, names, i, done) == Option::Some(done),
        0 <= i < names.len() ==> ({
            let f = th_field(src, ty, names[i]);
            let t = ti_type(src, pb_type_url(f));
            &&& f == 0 ==> th_rest(src, ty, names, i, done) == Option::<Seq<int>>::None
            &&& f != 0 && i + 1 == names.len() ==> th_rest(src, ty, names, i, done) == Option::Some(done.push(f))
            &&& f != 0 && i + 1 < names.len() && (pb_kind(f) != 11 || t == 0) ==> th_rest(src, ty, names, i, done) == Option::<Seq<int>>::None
            &&& f != 0 && i + 1 < names.len() && pb_kind(f) == 11 && t != 0 ==> th_rest(src, ty, names, i, done) == th_rest(src, t, names, i + 1, done.push(f))
        })
{
    if i == names.len() { assert(names.skip(i).len() == 0); assert(done + Seq::<int>::empty() =~= done); }
    if 0 <= i < names.len() {
        let f = th_field(src, ty, names[i]);
        let t = ti_type(src, pb_type_url(f));
        assert(names.skip(i)[0] == names[i]);
        assert(names.skip(i).drop_first() =~= names.skip(i + 1));
        assert(done + seq![f] =~= done.push(f));
        if f != 0 && i + 1 < names.len() && pb_kind(f) == 11 && t != 0 {
            match th_path(src, t, names.skip(i + 1)) {
                Option::None => {}
                Option::Some(p) => { assert(done + (seq![f] + p) =~= done.push(f) + p); }
            }
        }
    }
}
pub proof fn lemma_th_all(src: int, ty: int, names: Seq<Seq<u8>>)
    ensures th_path(src, ty, names) == th_rest(src, ty, names, 0, Seq::empty())
{
    assert(names.skip(0) =~= names);
    match th_path(src, ty, names) { Option::None => {} Option::Some(p) => { assert(Seq::<int>::empty() + p =~= p); } }
}
// the same with the type of the last field found not looked up yet
pub open spec fn th_late(src: int, ty: int, names: Seq<Seq<u8>>, i: int, done: Seq<int>) -> Option<Seq<int>> {
    if done.len() == 0 { th_rest(src, ty, names, i, done) } else if i >= names.len() { Option::Some(done) }
    else { let t = ti_type(src, pb_type_url(done.last())); if pb_kind(done.last()) != 11 || t == 0 { Option::None } else { th_rest(src, t, names, i, done) } }
}
pub proof fn lemma_th_late(src: int, ty: int, names: Seq<Seq<u8>>, i: int, done: Seq<int>)
    requires 0 <= i <= names.len()
    ensures i == names.len() ==> th_late(src, ty, names, i, done) == Option::Some(done),
        i < names.len() && !(done.len() > 0 && (pb_kind(done.last()) != 11 || ti_type(src, pb_type_url(done.last())) == 0)) ==> ({
            let f = th_field(src, if done.len() == 0 { ty } else { ti_type(src, pb_type_url(done.last())) }, names[i]);
            th_late(src, ty, names, i, done) == if f == 0 { Option::None } else { th_late(src, ty, names, i + 1, done.push(f)) }
        })
{
    let t = if done.len() == 0 { ty } else { ti_type(src, pb_type_url(done.last())) };
    lemma_th_step(src, t, names, i, done);
    if i < names.len() { assert(done.push(th_field(src, t, names[i])).last() == th_field(src, t, names[i])); }
}
