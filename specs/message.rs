// ---- one request message (properties C18 and C27) ---------------------------------------------------------------------------
// where the events of the body go: the proto writer, the weaver or the prefix writer of the same translator
pub enum Pipe { Proto, Weave, Prefix }
pub enum Listener { Own }
pub enum Sink { Own }
pub struct PwOptions { pub struct_integers_as_strings: bool, pub ignore_unknown_fields: bool, pub ignore_unknown_enum_values: bool, pub use_lower_camel_for_enums: bool, pub case_insensitive_enum_parsing: bool, pub ignore_null_value_map_entry: bool, pub use_legacy_json_map_format: bool, pub suppress_implicit_message_list_error: bool, pub disable_implicit_message_list: bool, pub suppress_implicit_scalar_list_error: bool, pub disable_implicit_scalar_list: bool, pub suppress_object_to_scalar_error: bool, pub use_json_name_in_missing_fields: bool }
pub uninterp spec fn default_options() -> PwOptions;
// protobuf's writer: what it was made with, whether a whole message has been written, whether strict base64 is required
pub struct ProtoW { pub resolver: int, pub message_type: int, pub sink: Sink, pub listener: Listener, pub options: PwOptions, pub strict: bool, pub done: bool }
pub struct WeaverT { pub bindings: Seq<C_RequestWeaver_BindingInfo>, pub out: Pipe, pub listener: Listener, pub reject: bool }
pub struct PrefixT { pub path: Seq<u8>, pub out: Pipe }
pub open spec fn has_prefix(i: C_RequestInfo) -> bool { i.body_field_path.len() > 0 && i.body_field_path != seq![42u8] }
pub open spec fn below_prefix(i: C_RequestInfo) -> Pipe { if i.variable_bindings.len() > 0 { Pipe::Weave } else { Pipe::Proto } }
pub open spec fn writer_made(resolver: int, i: C_RequestInfo) -> ProtoW {
    ProtoW { resolver, message_type: i.message_type, sink: Sink::Own, listener: Listener::Own,
             options: PwOptions { ignore_unknown_fields: true, case_insensitive_enum_parsing: i.case_insensitive_enum_parsing, ..default_options() }, strict: false, done: false }
}
pub open spec fn weaver_made(i: C_RequestInfo) -> Option<WeaverT> {
    if i.variable_bindings.len() > 0 { Option::Some(WeaverT { bindings: i.variable_bindings, out: Pipe::Proto, listener: Listener::Own, reject: i.reject_binding_body_field_collisions }) } else { Option::None }
}
pub open spec fn prefix_made(i: C_RequestInfo) -> Option<PrefixT> { if has_prefix(i) { Option::Some(PrefixT { path: i.body_field_path, out: below_prefix(i) }) } else { Option::None } }
pub open spec fn pipe_made(i: C_RequestInfo) -> Pipe { if has_prefix(i) { Pipe::Prefix } else { below_prefix(i) } }
// what NextMessage returns for the text written: with delimiters the first five bytes, reserved when the translator was made, become the prefix
pub open spec fn framed(delim: bool, text: Seq<u8>) -> Seq<u8> { if delim { prefix_of(text.len() - 5) + text.skip(5) } else { text } }
// the translator over its life: made, the proto writer appends to the text (its only access to it), the message is taken
pub enum ME { Write(Seq<u8>, bool), Take }
pub struct MS { pub text: Seq<u8>, pub done: bool, pub fin: bool, pub got: Seq<Seq<u8>> }
pub open spec fn me_step(delim: bool, s: MS, e: ME) -> MS {
    match e {
        ME::Write(b, done) => MS { text: if s.fin { s.text } else { s.text + b }, done: s.done || done, ..s },
        ME::Take => if s.fin || !s.done { s } else { MS { fin: true, got: s.got.push(framed(delim, s.text)), ..s } },
    }
}
pub open spec fn me_run(delim: bool, es: Seq<ME>) -> MS
    decreases es.len()
{
    if es.len() == 0 { MS { text: if delim { seq![0u8, 0, 0, 0, 0] } else { Seq::empty() }, done: false, fin: false, got: Seq::empty() } }
    else { me_step(delim, me_run(delim, es.drop_last()), es.last()) }
}
pub open spec fn written(delim: bool, es: Seq<ME>) -> Seq<u8>
    decreases es.len()
{
    if es.len() == 0 { Seq::empty() }
    else { let p = written(delim, es.drop_last()); match es.last() { ME::Write(b, _) => if me_run(delim, es.drop_last()).fin { p } else { p + b }, ME::Take => p } }
}
// whatever the proto writer wrote (fewer than 2^32 bytes), and however often the message is asked for: at most one message is returned, it is the
// bytes written before it was taken, and with delimiters it is preceded by a prefix that the reader decodes to their number
pub proof fn lemma_me(delim: bool, es: Seq<ME>)
    requires written(delim, es).len() < 0x1_0000_0000
    ensures ({
        let s = me_run(delim, es);
        let w = written(delim, es);
        &&& s.text == (if delim { seq![0u8, 0, 0, 0, 0] } else { Seq::empty() }) + w
        &&& s.got.len() == (if s.fin { 1int } else { 0 })
        &&& s.fin && !delim ==> s.got[0] == w
        &&& s.fin && delim ==> s.got[0] == prefix_of(w.len() as int) + w && s.got[0][0] == 0 && be32(s.got[0], 1) == w.len()
    })
    decreases es.len()
{
    let s = me_run(delim, es);
    let w = written(delim, es);
    if es.len() > 0 {
        let p = me_run(delim, es.drop_last());
        lemma_me(delim, es.drop_last());
        lemma_prefix(w.len() as int);
        if delim && !p.fin { assert(p.text.skip(5) =~= written(delim, es.drop_last())); }
        assert(s.text =~= (if delim { seq![0u8, 0, 0, 0, 0] } else { Seq::empty() }) + w);
    } else { assert(s.text =~= (if delim { seq![0u8, 0, 0, 0, 0] } else { Seq::empty() }) + w); }
}
pub struct Loc { pub id: int }
pub uninterp spec fn loc_text(l: Loc) -> Seq<u8>;
