"""Which functions under contract decide which property, and the harness that replays counterexamples."""
COMMON = [
    'calls of library functions, and of functions of /repo assumed by contract, return (loops and recursion of the code under contract are proved to end)',
    'sizes of strings and containers are at most max_size() (PTRDIFF_MAX); allocation succeeds',
    'std:: / absl:: operations behave as modelled in tools/lib.py and specs/prelude.rs (assumed contracts, listed as lib:...)',
    'arguments that C++ passes by reference or pointer do not alias each other',
    'the translation of tools/tr.py (clang AST to Verus) preserves the meaning of the code',
]
PROPS = {
    'C03': dict(modules=['percent'], roots=['UrlUnescapeString', 'UrlUnescapeString1', 'IsUrlEscapedString', 'IsUrlEscapedString1'],
                harness='percent', hspec={}, assume=[],
                note='all functions of percent_encoding.h under contract, unbounded; total correctness; library operations modelled'),
    'C01': dict(modules=['template'], roots=['HttpTemplate_Parse'], needs={'HttpTemplate_Parse': ['accepts_iff']}, harness='template', hspec=dict(src=['src/http_template.cc']), assume=['templates shorter than 2^31-1 bytes'],
                note='every function of the parser under contract against a recursive-descent specification of the grammar; unbounded'),
    'C02': dict(modules=['template'], roots=['HttpTemplate_Parse'], needs={'HttpTemplate_Parse': ['segments', 'verb', 'variables']}, harness='template', hspec=dict(src=['src/http_template.cc']), assume=['templates shorter than 2^31-1 bytes'],
                note='as C01: segments, verb and variables of the result equal those of the specification; unbounded'),
}
MSRC = dict(src=['src/http_template.cc', 'src/path_matcher_node.cc'])
REG = ['M_Register', 'M_Register4']
LOOK = ['M_Lookup', 'M_Lookup2']
BUILD = ['M_BuilderCtor', 'M_Ctor', 'M_Build']
SETTERS = ['M_SetUrlUnescapeSpec', 'M_SetQueryParamUnescapePlus', 'M_SetMatchUnregisteredCustomVerb', 'M_SetFailRegistrationOnDuplicate']
MA = ['templates shorter than 2^31-1 bytes', 'the method records of one builder have pairwise distinct addresses (fresh allocations); the address of a record is not reused while a trie entry that is not marked ambiguous refers to it (proved: dangling entries are always marked ambiguous)']


def both(names):
    return {k: list(names) for k in LOOK}


def matcher(roots, needs, note, **kw):
    return dict(modules=['matcher'], roots=roots, needs=needs, harness='matcher', hspec=MSRC, assume=MA, note=note, **kw)


PROPS.update({
    'C04': matcher(['M_Lookup'] + REG + ['M_SetUrlUnescapeSpec'] + BUILD, {'M_Lookup': ['path_bindings'], 'M_Register': ['stored', 'table'], 'M_Register4': ['stored', 'table']},
                   'bindings of ExtractBindingsFromPath as a function of the stored variables (proved), variables of the stored template (proved), lemma_cover: the bound segments are those matched by the segments written in the braces (proved); unbounded'),
    'C05': matcher(['M_Lookup', 'M_Lookup2', 'M_Register', 'M_Register4', 'UrlUnescapeString', 'UrlUnescapeString1', 'IsUrlEscapedString', 'IsUrlEscapedString1', 'HttpTemplate_Parse', 'N_Clone'] + BUILD + SETTERS,
                   {k: [] for k in LOOK + ['UrlUnescapeString', 'UrlUnescapeString1', 'IsUrlEscapedString', 'IsUrlEscapedString1', 'HttpTemplate_Parse', 'N_Clone'] + SETTERS} | {k: ['table'] for k in REG},
                   'every index, substring, dereference, iterator, signed-arithmetic and container-access obligation of every function reachable from parsing, decoding, registration and lookup, and a decreasing measure for every loop and recursion; allocation failure excluded', total=True),
    'C06': matcher(['M_Lookup', 'M_Parts', 'M_SetMatchUnregisteredCustomVerb'] + REG + BUILD, {'M_Lookup': ['method'], 'M_SetMatchUnregisteredCustomVerb': ['set'], **{k: ['verbs', 'table'] for k in REG}},
                   'ExtractRequestParts against a specification of query stripping, verb recognition and splitting, and its use by Lookup; the set of recognised verbs is a postcondition of Register; unbounded'),
    'C07': matcher(['M_Lookup', 'M_Lookup2'] + REG + BUILD, {**both(['method']), **{k: ['stored', 'others_unchanged', 'table'] for k in REG}},
                   'Lookup returns what the trie specification `best` selects (proved); lemmas sound/lemma_found: whatever it selects is stored for a matching pattern (induction over the trie); Register stores exactly the registered pattern; unbounded'),
    'C08': matcher(['M_Lookup', 'M_Lookup2'] + REG + BUILD, {**both(['method']), **{k: ['stored', 'others_unchanged', 'table'] for k in REG}},
                   '`best` is the stated preference order with backtracking; lemma_complete/lemma_found: something is found whenever a stored pattern matches; lemma_same/lemma_order/lemma_swap: the answer depends on the stored routes only, not on the order of registration; unbounded'),
    'C09': matcher(['M_Lookup', 'M_Lookup2'] + REG + BUILD + ['M_SetFailRegistrationOnDuplicate'], {**both(['method']), **{k: ['result', 'stored', 'others_unchanged', 'table'] for k in REG}},
                   'Register: an existing route becomes ambiguous and stays so (route_added, lemma_history by induction over registration histories), Lookup of an ambiguous route returns nothing; unbounded'),
    'C10': matcher(REG + BUILD, {k: ['result', 'invalid_unchanged', 'stored', 'others_unchanged', 'table'] for k in REG},
                   'frame condition over all other (pattern, key) pairs of the trie and all stored method records, and the stored record is exactly the one given; unbounded'),
    'C11': matcher(['M_Lookup', 'M_SetQueryParamUnescapePlus'] + REG + BUILD, {'M_Lookup': ['query_bindings'], **{k: ['stored', 'table'] for k in REG}},
                   'ExtractBindingsFromQueryParameters against a specification over the list of pieces; unbounded'),
    'C12': matcher(['M_Lookup', 'M_Lookup2'] + REG + BUILD, {**{k: ['stored', 'table'] for k in REG}, 'M_Lookup': ['method', 'path_bindings', 'query_bindings', 'body', 'miss'], 'M_Lookup2': ['method']},
                   'postconditions of both Lookup overloads over every combination of present and absent outputs, and the frame condition that the matcher is unchanged; unbounded'),
    'C14': dict(modules=['node'], roots=['N_Clone'], harness='matcher', hspec=MSRC, assume=['children are owned by their parent (std::unique_ptr), so a deep value copy shares nothing'],
                note='Clone returns a node equal in results, "**" marking and (recursively) children; unbounded depth and size'),
})
USRC = dict(src=MSRC['src'], gen=['google/api/http.pb.cc', 'google/api/annotations.pb.cc'])
PROPS['C13'] = dict(modules=['utility'], roots=['U_Register', 'U_Register3'] + REG + BUILD, needs={**{k: ['result', 'stored', 'verbs', 'history', 'history_same', 'table'] for k in REG}}, harness='utility', hspec=USRC,
    assume=['generated accessors of google.api.HttpRule return the fields of the rule (the member of the oneof that is set, an empty string for the others)', 'templates shorter than 2^31-1 bytes'],
    note='RegisterByHttpRule equals the specification reg_rule (own pattern, then the additional bindings in order until one fails), by its own contract for the recursive call; the registration history grows by exactly these routes; unbounded')
RA = ['the input stream behaves as TranscoderInputStream is specified (contracts/reader.py): Next hands out a prefix of the available bytes and fails only at the end of the input; no byte arrives during a call',
      'the message returned is read to its end before the next call (documented precondition of MessageReader)', 'LimitingInputStream delivers exactly the given number of bytes of the stream it wraps', 'an input stream hands out finitely many empty chunks in a row']
RD = dict(modules=['reader'], harness='reader', hspec=dict(src=['src/message_reader.cc']), assume=RA)
RR = ['R_NextMessage', 'R_Frame', 'R_Finished', 'R_Status', 'R_Ctor']
PROPS['C15'] = dict(RD, roots=RR, needs={'R_NextMessage': ['returned', 'message', 'position', 'pending', 'header', 'state'], 'R_Frame': ['returned', 'message', 'position', 'pending', 'state', 'frame', 'size'], 'R_Finished': [], 'R_Status': []},
    note='each call equals the specification `next`; lemma_hist/lemma_call (induction over histories of arrivals, end of input and calls): the messages returned are the payloads of the first frames, back to back, a call returns one whenever it is complete, and nothing else is read; unbounded')
PROPS['C16'] = dict(RD, roots=RR, needs={'R_NextMessage': ['returned', 'position', 'pending', 'status', 'finished', 'state'], 'R_Frame': ['returned', 'position', 'pending', 'status', 'finished', 'state']},
    note='status and end-of-stream of each call equal the specification `next`; lemma_call/lemma_hist: exactly for the listed malformations, lemma_over: sticky; unbounded')
PROPS['C17'] = dict(modules=['stream'], roots=['S_Next', 'S_BackUp', 'S_BytesAvailable', 'S_Finished', 'S_Ctor', 'S_Create'], harness='stream', hspec=dict(src=['src/message_stream.cc']),
    assume=['the underlying MessageStream behaves as specified: NextMessage hands out the messages in order and leaves the string alone when it returns false; messages are shorter than 2^31 bytes', 'BackUp is valid right after the Next it takes back from (documented precondition of ZeroCopyInputStream)'],
    note='every method against the abstract view "bytes not delivered yet"; lemma_a_trace (induction over histories of messages, reads, back-ups, counts): delivered bytes followed by the rest are the concatenation of all messages; unbounded')
STUBS = 'the protobuf util/converter classes (ObjectWriter, ProtoStreamObjectWriter, JsonStreamParser, TypeInfo, DataPiece), which the installed protobuf does not ship, have the interface declared in stubs/ and behave as the contracts in contracts/*.py describe them'
PW = ['StartPrefix', 'EndPrefix', 'Ctor', 'StartObject', 'EndObject', 'StartList', 'EndList', 'RenderNull', 'RenderBool', 'RenderInt32', 'RenderUint32', 'RenderInt64', 'RenderUint64', 'RenderDouble', 'RenderFloat', 'RenderString', 'RenderBytes']
PROPS['C19'] = dict(modules=['prefix'], roots=['P_' + x for x in PW if x not in ('StartPrefix', 'EndPrefix')], needs={'P_' + x: ['events', 'depth'] for x in PW[3:]} | {'P_Ctor': ['prefix', 'start']}, harness='prefix', hspec=dict(src=['src/prefix_writer.cc'], stubs=True),
    assume=[STUBS, 'the event stream is well nested, at most 2^31-1 levels deep'],
    note='every event method writes exactly the events of the specification px_step; lemma_p_value/lemma_p_stream (induction over event streams): every top-level value is wrapped in the objects of the prefix, lemma_p_identity: an empty prefix changes nothing; unbounded')
TH = ['L_FindField', 'L_GetType', 'L_GetEnum', 'L_Resolve', 'L_Ctor', 'T_Ctor', 'T_Initialize']
THS = dict(src=['src/type_helper.cc'], stubs=True)
PROPS['C25'] = dict(modules=['typehelper'], roots=['T_Resolve', 'T_ResolveStr'] + TH, needs={'T_Resolve': ['resolved', 'fields', 'error'], 'T_ResolveStr': ['resolved', 'fields', 'error'], **{k: ['answer'] for k in TH[:4]}, 'T_Ctor': ['source'], 'T_Initialize': ['source']}, harness='typehelper', hspec=THS,
    also=[dict(modules=['resolver'], roots=['S_Ctor', 'S_ResolveMessageType', 'S_ResolveEnumType', 'H_Make'], needs={'S_Ctor': ['prefix', 'empty'], 'S_ResolveMessageType': ['found', 'given'], 'S_ResolveEnumType': ['found', 'given'], 'H_Make': ['made', 'types', 'enums']})],
    assume=[STUBS, 'what a TypeInfo answers is a function of the type resolver it was made for (ti_field, ti_type)', 'the options of protobuf types (which AddType renames) are not described; the objects given to the constructor outlive the TypeHelper'],
    note='both overloads against the recursive specification th_path over an arbitrary type collection; names are also looked up percent-decoded (contracts of percent_encoding.h); unbounded path length')
PROPS['C26'] = dict(modules=['typehelper'], roots=TH + ['T_Resolve', 'T_ResolveStr'], needs={**{k: ['released'] for k in TH[:4]}, 'L_Ctor': ['wraps', 'lock_free'], 'T_Ctor': ['locked'], 'T_Initialize': ['locked'], 'T_Resolve': [], 'T_ResolveStr': []}, harness='typehelper', hspec=THS,
    assume=[STUBS, 'absl::Mutex provides mutual exclusion'],
    note='ghost lock state: every access to the wrapped TypeInfo carries the obligation that the lock is held, every method starts and ends with the lock free, and the only TypeInfo a TypeHelper hands out or uses is the locked one; no schedule is enumerated: mutual exclusion follows for all of them')
TSRC = dict(src=['src/' + x + '.cc' for x in ('request_stream_translator', 'request_message_translator', 'request_weaver', 'prefix_writer', 'status_error_listener')], stubs=True)
JSRC = dict(TSRC, src=['src/json_request_translator.cc'] + TSRC['src'])
QEV = ['Q_' + x for x in PW[3:]]
PROPS['C22'] = dict(modules=['rstream'], roots=['Q_Ctor', 'Q_NextMessage', 'Q_Finished', 'Q_Status'] + QEV, needs={'Q_Ctor': ['start'], 'Q_NextMessage': ['returned', 'message', 'others'], 'Q_Finished': ['finished'], 'Q_Status': ['status'], **{k: ['step', 'state'] for k in QEV}}, harness='rstream', hspec=TSRC,
    assume=[STUBS, 'what a RequestMessageTranslator answers (status, message) is determined by what it was made with and the events it received (tr_status, tr_message)', 'the event stream is nested at most 2^31-2 levels deep'],
    note='every event method equals the specification rstep; lemma_element (induction over event streams): the translator of an element receives exactly its events and its message is the only thing added; the bindings go to the first translator, the options to every one; lemma_sticky: an error is final; unbounded')
PROPS['C23'] = dict(modules=['lazyjson'], roots=['J_Make', 'J_Ctor', 'J_NextMessage', 'J_Finished', 'J_Status'], needs={'J_Make': ['wired'], 'J_Ctor': ['start'], 'J_NextMessage': ['polls', 'state', 'returned', 'message'], 'J_Finished': ['finished'], 'J_Status': ['status']}, harness='lazyjson', hspec=JSRC,
    assume=[STUBS, 'the answers of the input, the parser and the translation are functions of the calls made so far (otherwise arbitrary)', 'the input does not go on after its end and hands out chunks of at most 2^31-1 bytes, finitely many before it has nothing at the moment or ends; once "{}" was parsed there is a message or the stream is finished (axiom_input, used for termination)', 'the parts a JsonRequestTranslator is put together from do not change between their construction and the first call'],
    note='NextMessage, TranslateChunk and CheckParsingStatus against a specification over arbitrary inputs, parsers and translations; lemma_lz_hist (induction over histories of calls): the parser was given exactly the chunks read so far in order, "{}" only for an input that ended without data; lemma_lazy: nothing is read while a message is available or after an error; unbounded')
PROPS['C24'] = dict(modules=['response'], roots=['W_Ctor', 'W_NextMessage', 'W_Finished', 'W_Status'] + RR, needs={'W_NextMessage': ['returned', 'message', 'reader_status', 'state', 'reader'], 'W_Ctor': ['start', 'reader'], 'W_Finished': ['finished'], 'W_Status': ['status']}, harness='response',
    hspec=dict(src=['src/response_to_json_translator.cc', 'src/message_reader.cc'], stubs=True),
    assume=[STUBS, *RA, 'BinaryToJsonStream appends the JSON of its message, a function of (resolver, type, bytes, options), having read the message to its end, or returns an error; StringOutputStream appends to its string and never fails'],
    note='NextMessage and TranslateMessage against the specification of one call on top of the contracts of MessageReader; lemma_t_trace (induction over histories of arrivals, end of input and calls): what was returned is the JSON of the first frames in order in the stated framing, complete once finished; lemma_t_error: errors are exactly those of framing and translation; unbounded')
GSRC = dict(TSRC, src=['src/message_reader.cc'] + [x for x in TSRC['src'] if 'stream_translator' not in x])
PROPS['C18'] = dict(modules=['message'], roots=['G_Ctor', 'G_NextMessage', 'G_Finished', 'R_DelimiterToSize', 'R_Frame', 'R_NextMessage'], needs={'G_Ctor': ['text'], 'G_NextMessage': ['returned', 'message', 'finished', 'unchanged'], 'G_Finished': ['finished'], 'R_DelimiterToSize': ['big_endian'], 'R_Frame': ['frame', 'size', 'message'], 'R_NextMessage': ['message', 'header']},
    harness='message', hspec=GSRC, assume=[STUBS, 'ProtoStreamObjectWriter only appends to its sink', 'messages are shorter than 2^32 bytes', *RA[:1]],
    note='the prefix written is prefix_of(size) (proved for every size), DelimiterToSize is be32 (proved), lemma_prefix: be32 of prefix_of(n) is n; lemma_me (induction over histories of writes and requests for the message): at most one message, exactly the bytes written; unbounded')
PROPS['C27'] = dict(modules=['message'], roots=['G_Ctor', 'G_Input', 'G_Status'] + ['E_' + x for x in ('InvalidName', 'InvalidValue', 'MissingField', 'set_status', 'status')], needs={'G_Ctor': ['text', 'writer', 'bindings', 'body', 'input'], 'G_Input': ['input'], 'G_Status': ['status'], **{'E_' + x: ['invalid'] for x in ('InvalidName', 'InvalidValue', 'MissingField')}, 'E_set_status': ['set'], 'E_status': ['status']},
    harness='message', hspec=GSRC, assume=[STUBS, 'RequestWeaver and PrefixWriter are what C19, C20 and C21 say; ProtoStreamObjectWriter honours its options'],
    note='the constructor builds exactly the pipeline the specification states, for every combination of options; unbounded')
VEV = ['V_' + x for x in PW[3:]]
VE = ['events', 'tree', 'position', 'error']
VALL = ['V_Find', 'V_Create', 'V_FindOrCreate', 'V_Weave', 'V_Bind', 'V_Ctor', 'V_Check'] + VEV
VA = [STUBS, 'conversions of a DataPiece to another type are not interpreted (to its own type: the value); name and cardinality of a Field are determined by its address', 'floating-point operations are not interpreted, the tolerance is the constant 32 * FLT_EPSILON',
      'nodes of the tree of bindings are owned by their parent and keep their addresses while the tree grows (std::list)', 'events nested at most 2^31-2 levels deep']
VSRC = dict(src=['src/request_weaver.cc', 'src/status_error_listener.cc'], stubs=True)
PROPS['C20'] = dict(modules=['weaver'], roots=VALL, needs={'V_Find': ['child'], 'V_Create': ['child', 'created'], 'V_FindOrCreate': ['child', 'created'], 'V_Weave': ['emptied', 'events'], 'V_Bind': ['fields', 'bound'], 'V_Ctor': ['fields', 'bound', 'start'], 'V_Check': ['dropped', 'emitted'], **{k: VE[:3] for k in VEV}},
    harness='weaver', hspec=VSRC, assume=VA,
    note='every method against the specification of one event over the tree of bindings; lemma_stream/lemma_complete (induction over event streams and over the tree): the output is the body in order plus, for every binding given, exactly one Woven (or, by C21, Dropped) in the object its path names, never in a list, an object being created only when the enclosing one closes and the body had none; unbounded')
PROPS['C21'] = dict(modules=['weaver'], roots=['V_Equal', 'V_Status'] + VALL, needs={'V_Equal': ['same', 'invalid'], 'V_Check': ['dropped', 'emitted', 'error'], 'V_Status': ['status'], 'V_Find': ['child'], 'V_Create': ['child', 'created'], 'V_FindOrCreate': ['child', 'created'], 'V_Weave': ['emptied', 'events'], 'V_Bind': ['fields', 'bound'], 'V_Ctor': ['fields', 'bound', 'start'], **{k: VE for k in VEV}},
    also=[dict(modules=['message'], roots=['E_set_status', 'E_status'], needs={'E_set_status': ['set'], 'E_status': ['status']})],
    harness='weaver', hspec=VSRC, assume=VA,
    note='isEqual says same_value for every type of body value (with the fixed tolerance), CollisionCheck drops every binding of the name and reports exactly the clashes; lemma_given_way/lemma_none_left/lemma_reported (induction over event streams): only a body value makes a binding give way, none of its name is left, the status is an invalid argument exactly when reporting is on and some value clashed; unbounded')
NOT_APPLICABLE = {}
