// ---- ObjectWriter events ----------------------------------------------------------------------------------------------
pub enum Piece { Bool(bool), I32(i32), U32(u32), I64(i64), U64(u64), Double(F64), Float(F32), Text(Seq<u8>), Bytes(Seq<u8>), Null }
pub enum Evt { StartObject(Seq<u8>), EndObject, StartList(Seq<u8>), EndList, Value(Seq<u8>, Piece) }
// an ObjectWriter is observed through the events it has been sent
pub struct Writer { pub log: Seq<Evt> }
pub open spec fn opens_level(e: Evt) -> bool { e is StartObject || e is StartList }
pub open spec fn closes_level(e: Evt) -> bool { e is EndObject || e is EndList }
pub open spec fn renamed(e: Evt, n: Seq<u8>) -> Evt {
    match e { Evt::StartObject(_) => Evt::StartObject(n), Evt::StartList(_) => Evt::StartList(n), Evt::Value(_, p) => Evt::Value(n, p), _ => e }
}
pub open spec fn name_of(e: Evt) -> Seq<u8> { match e { Evt::StartObject(n) => n, Evt::StartList(n) => n, Evt::Value(n, _) => n, _ => Seq::empty() } }
pub open spec fn level_after(d: int, e: Evt) -> int { if opens_level(e) { d + 1 } else if closes_level(e) { d - 1 } else { d } }
