// ---- the type collection a TypeHelper is made from (property C25) -----------------------------------------------------------
pub struct TypeMsg { pub id: int, pub name: Seq<u8> }
pub struct EnumMsg { pub id: int, pub name: Seq<u8> }
// a type resolver; simple: it is the one of type_helper.cc
pub struct TypeRes { pub id: int, pub simple: Option<C_SimpleTypeResolver> }
pub uninterp spec fn res_id(s: C_SimpleTypeResolver) -> int;
pub struct Mutex { pub held: bool }
pub struct Info { pub locked: bool, pub src: int }
// "type.googleapis.com/"
pub open spec fn url_prefix() -> Seq<u8> { seq![116u8, 121u8, 112u8, 101u8, 46u8, 103u8, 111u8, 111u8, 103u8, 108u8, 101u8, 97u8, 112u8, 105u8, 115u8, 46u8, 99u8, 111u8, 109u8, 47u8] }
// the first object added under a URL stays
pub open spec fn added<A>(m: Map<Seq<u8>, A>, url: Seq<u8>, t: A) -> Map<Seq<u8>, A> { if m.dom().contains(url) { m } else { m.insert(url, t) } }
// the first n objects of a collection, by URL
pub open spec fn collection(s: Seq<TypeMsg>, n: int) -> Map<Seq<u8>, TypeMsg> decreases n { if n <= 0 { Map::empty() } else { added(collection(s, n - 1), url_prefix() + s[n - 1].name, s[n - 1]) } }
pub open spec fn collection_e(s: Seq<EnumMsg>, n: int) -> Map<Seq<u8>, EnumMsg> decreases n { if n <= 0 { Map::empty() } else { added(collection_e(s, n - 1), url_prefix() + s[n - 1].name, s[n - 1]) } }
// what a lookup by URL finds: the first object of the collection with that name
pub proof fn lemma_collection(s: Seq<TypeMsg>, n: int, name: Seq<u8>)
    requires 0 <= n <= s.len()
    ensures collection(s, n).dom().contains(url_prefix() + name) <==> (exists|i: int| 0 <= i < n && (#[trigger] s[i]).name == name),
        forall|i: int| 0 <= i < n && (#[trigger] s[i]).name == name && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).name != name) ==> collection(s, n)[url_prefix() + name] == s[i]
    decreases n
{
    if n > 0 {
        lemma_collection(s, n - 1, name);
        let a = url_prefix() + s[n - 1].name; let b = url_prefix() + name;
        if a == b { assert(a.skip(url_prefix().len() as int) =~= s[n - 1].name); assert(b.skip(url_prefix().len() as int) =~= name); assert(s[n - 1].name == name); }
        assert(s[n - 1].name == name ==> a == b);
        if s[n - 1].name == name { assert(exists|i: int| 0 <= i < n && (#[trigger] s[i]).name == name); }
        if collection(s, n).dom().contains(b) && a != b { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).name == name; assert(0 <= i < n && s[i].name == name); }
    }
}
