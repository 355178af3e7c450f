#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the property texts live)."""
import json,os
H='src/include/grpc_transcoding/'
P=[]
def p(id,title,statement,over,quant,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over.split(','),text=quant),why_tests_cant=why,
      anchors=dict(files=files.split(),
        state=[dict(zip(('name','meaning','where'),s)) for s in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(obs),hook_needed=hook)))

p('C01','HTTP template parser accepts exactly the documented grammar',
 'A path template is accepted if and only if it is "/" or is "/" Segments [":" LITERAL] with Segments = Segment {"/" Segment}, Segment = "*" | "**" | LITERAL | "{" FieldPath ["=" Segments] "}", FieldPath = IDENT {"." IDENT}, where a LITERAL is a non-empty run of bytes other than "/", ":" and "}" that does not start with "*" or "{" when it is a segment, and an IDENT is a non-empty run of bytes other than ".", "}" and "=". In addition variables never nest, and no "*" or "**" may follow a "**". Every other string is rejected with a null result.',
 'inputs','every byte string (shorter than 2^30 bytes) given as a template',
 'http_template_test.cc and the fuzz corpus exercise a few dozen templates; acceptance is a predicate on all strings, and the fuzz test asserts no verdict at all.',
 'src/http_template.cc '+H+'http_template.h',
 [('recursive-descent Parser with token window','src/http_template.cc Parser::Parse*'),('ValidateParts','src/http_template.cc Parser::ValidateParts')],
 [('tb_, te_','token window into the input','Parser'),('in_variable_','inside { }','Parser')],['HttpTemplate::Parse'])
p('C02','Parsed template reports its segments, verb and variables faithfully',
 'For an accepted template the reported segments are its path segments in order with variables expanded ("{x}" counting as "{x=*}"), the verb is the text after the final ":" (empty if none), and there is one variable per "{...}" in order with its dot-split field path. Each variable reports the index range of the segments written inside its braces; when that part contains "**" the end is instead reported relative to the end of the segment list, so that -1 denotes the end of the path; a variable lying behind a "**" reports both its start and its end that way. "/" has no segments, no verb and no variables.',
 'inputs','every accepted template',
 'the unit tests compare a handful of parsed templates; the relation between the text and the reported structure must hold for every accepted string.',
 'src/http_template.cc '+H+'http_template.h',
 [('AddFieldIdentifier, StartVariable, EndVariable, PostProcessVariables','src/http_template.cc')],
 [('segments_, verb_, variables_','parse result','HttpTemplate')],['HttpTemplate::segments','HttpTemplate::verb','HttpTemplate::Variables'])
p('C03','Percent-decoding is exact for every input and decoding mode',
 'URL-unescaping replaces, scanning left to right, every "%" followed by two hexadecimal digits by the byte they encode, except that in the default mode an escape of an RFC 6570 reserved character and in the keep-slash mode an escape of "/" is left as written; with plus-decoding on, "+" becomes a space. Every other byte is copied unchanged and nothing is decoded twice. A string is reported as escaped exactly when decoding would replace at least one position.',
 'inputs,configurations','all byte strings, the three unescape modes, plus-decoding on or off',
 'tests decode selected strings; the set of 256x256 escape pairs, the three modes, truncated escapes at the end and overlapping "%" are quantified over all strings.',
 H+'percent_encoding.h',[('GetEscapedChar','percent_encoding.h'),('UrlUnescapeString','percent_encoding.h')],(),['UrlUnescapeString','IsUrlEscapedString','Lookup variable bindings'])
p('C04','Path variables bind exactly the segments they cover, decoded once',
 'A successful lookup yields, for each template variable in order, a binding with the variable\'s field path whose value is the covered request segments joined by "/". A variable covering exactly one segment and not containing "**" is fully percent-decoded; a variable that contains "**" or covers several segments is decoded segment by segment under the configured unescape mode, with "+" never turned into a space. When no segment is covered the value is empty.',
 'inputs,configurations','every registered template, request path that matches it, and unescape mode',
 'tests use a few templates and values; the index arithmetic for "**" with a suffix and the mode choice depend on all combinations of segment counts.',
 H+'path_matcher.h '+H+'percent_encoding.h',[('ExtractBindingsFromPath','path_matcher.h')],[('Variable.start_segment/end_segment','bound range','HttpTemplate::Variable')],['PathMatcher::Lookup'])
p('C05','Parsing and matching never touch memory out of bounds, throw or hang',
 'For any template, request path, query string or registration sequence, template parsing, percent-decoding, registration and lookup perform no out-of-bounds read or write, no null or dangling dereference, no out-of-range substring or container access that would throw, and no signed overflow, and every call returns. No precondition on the bytes of the input is needed.',
 'inputs,histories','all byte strings (shorter than 2^30 bytes) as template, path and query; all registration histories',
 'sanitised tests and the short fuzz corpora only see the executions they run; index arithmetic has boundary cases (empty paths, trailing "%", "**" binding no segment, "?" first) for every length.',
 'src/http_template.cc src/path_matcher_node.cc '+H+'path_matcher.h '+H+'percent_encoding.h',[('bounds and emptiness tests before every access','all of the named files')],(),['HttpTemplate::Parse','PathMatcherBuilder::Register','PathMatcher::Lookup','UrlUnescapeString'])
p('C06','Request paths are split into verb and segments as specified',
 'Before matching, everything from the first "?" is dropped; then, if the path contains a "/" and its last ":" lies after the last "/", and the text after that colon is a registered custom verb (or matching of unregistered verbs is enabled), that text becomes the verb and is removed together with its colon. The remaining path is split on "/" after dropping its first byte, empty segments are kept except that all trailing empty segments are removed. When the colon does not introduce a recognised verb it stays part of the last segment and the verb is empty.',
 'inputs,configurations','every request path, set of registered verbs and flag value',
 'tests check selected paths; the interplay of "?", ":", "/" positions and trailing slashes is combinatorial.',
 H+'path_matcher.h',[('ExtractRequestParts','path_matcher.h')],[('custom_verbs_','verbs seen in registered templates','PathMatcher')],['PathMatcher::Lookup'])
p('C07','Lookup returns only methods whose template matches the request',
 'Whenever a lookup returns a method, that method was registered for a template whose segments match the request\'s segments one to one. A literal matches only the identical segment, "*" exactly one segment, and "**" a run of segments that is non-empty except when it is the last template segment and the request ends there. Methods are compared together with verbs: the registered HTTP method followed by the template\'s verb equals the request\'s HTTP method followed by its verb, or it is exactly the any-method "*" without a verb.',
 'inputs,histories','every sequence of registrations and every request',
 'tests look up a fixed list of URLs against small rule sets; soundness quantifies over all tries and all paths.',
 'src/path_matcher_node.cc '+H+'path_matcher.h',[('trie lookup','PathMatcherNode::LookupPath'),('trie insert','PathMatcherNode::InsertTemplate')],[('children_, result_map_, wildcard_','trie node','PathMatcherNode')],['PathMatcher::Lookup'])
p('C08','Lookup finds the most specific matching registration',
 'At each position lookup prefers continuing with the template segment identical to the request segment, then (for a "**" being matched) extending it, then "*", then "**", backtracking when a preferred branch does not lead to a registered method; at the end of the path a method registered for the exact HTTP method beats one registered for any method, and an empty match of a final "**" is tried last. If any registered template matches the request under those rules, the lookup does not come back empty (unless the selected route is ambiguous, C09), and the registration returned depends only on which (method, template) pairs were registered and how often, not on the order of registration.',
 'inputs,histories','every set of registrations, order of registration, and request',
 'the precedence tests check specific rule sets; completeness under backtracking must hold for all tries.',
 'src/path_matcher_node.cc '+H+'path_matcher.h',[('LookupPath child order','src/path_matcher_node.cc'),('Find2KeysOrNull','src/path_matcher_node.cc')],[('children_','trie edges','PathMatcherNode')],['PathMatcher::Lookup'])
p('C09','Duplicate registrations make a route ambiguous, never misrouted',
 'Registering the same (HTTP method, segment pattern, verb) a second time makes every lookup that selects this route return nothing, from then on and regardless of later registrations. When failing on duplicates is enabled the second registration returns false, otherwise true. Templates differing only in variable names or field paths count as the same route.',
 'histories,configurations','every registration history, with either setting of the flag at each step',
 'tests register two duplicates in a row; the property is about arbitrary histories interleaved with other routes.',
 'src/path_matcher_node.cc '+H+'path_matcher.h',[('is_multiple marking','PathMatcherNode::InsertTemplate'),('InsertPathToNode','path_matcher.h')],[('PathMatcherLookupResult.is_multiple','ambiguous route','path_matcher_node.h')],['PathMatcherBuilder::Register','PathMatcher::Lookup'])
p('C10','A registration affects only its own route',
 'Registering a template never changes what is stored for any other (HTTP method, segment pattern, verb) combination. Registering an invalid template returns false and leaves the builder unchanged; a valid, previously unregistered one returns true and from then on the stored method, variables, body field path and system parameter names are exactly those given.',
 'inputs,histories','every builder state reachable by registrations, every further registration, every other route',
 'tests check a few independent routes; a frame property speaks about all other entries of the trie.',
 'src/path_matcher_node.cc '+H+'path_matcher.h',[('InsertTemplate','src/path_matcher_node.cc'),('Register','path_matcher.h')],[('root_ptr_, methods_, custom_verbs_','routing table','PathMatcherBuilder')],['PathMatcherBuilder::Register','PathMatcher::Lookup'])
p('C11','Query parameters become bindings in order with exact decoding',
 'A successful lookup appends after the path bindings, for each "&"-separated piece of the query string in order that contains "=" not at its start, a binding whose field path is the text before the first "=" split on "." and whose value is the fully percent-decoded remainder, with "+" as space only if configured. Pieces whose name is one of the method\'s system parameter names, and pieces without "=" or with an empty name, produce no binding. The name itself is not decoded.',
 'inputs,configurations','every query string, system parameter set and plus setting',
 'tests use a few queries; the relation covers all strings (empty pieces, several "=", empty values, dots).',
 H+'path_matcher.h '+H+'percent_encoding.h',[('ExtractBindingsFromQueryParameters','path_matcher.h')],(),['PathMatcher::Lookup'])
p('C12','A lookup reports bindings and body path of the method it returns',
 'When lookup returns a method, the output bindings are replaced by exactly the path bindings followed by the query bindings of that method and the body field path is that method\'s; either output may be omitted. When it returns nothing the outputs are left untouched. The two-argument lookup returns the same method as the full lookup for every request, and lookups change no state.',
 'inputs,histories','every matcher, request and combination of present or absent outputs',
 'tests pass both outputs in nearly all cases and never compare the two overloads over all inputs.',
 H+'path_matcher.h',[('PathMatcher::Lookup (both overloads)','path_matcher.h')],(),['PathMatcher::Lookup'])
p('C13','An HttpRule registers its own pattern and all additional bindings',
 'Registering an HttpRule registers exactly the pattern set in it (GET, PUT, POST, DELETE, PATCH, or the custom kind and path) with its body selector, then every additional binding, recursively and in order, stopping at and reporting the first failure. A rule without a pattern contributes no route of its own and does not fail. All are registered for the same method value and system parameter names.',
 'inputs','every HttpRule tree and builder state',
 'tests cover each verb once and one list of bindings; nesting depth, order and failure position are unbounded.',
 H+'path_matcher_utility.h '+H+'path_matcher.h',[('RegisterByHttpRule','path_matcher_utility.h')],(),['PathMatcherUtility::RegisterByHttpRule'])
p('C14','Copying a route trie yields an equal, independent trie',
 'Cloning a trie node gives a node that stores the same result for every (segment pattern, key) and the same "**" marking at every position, so every lookup on the clone gives the same answer as on the original.',
 'inputs,histories','every trie built by insertions',
 'the clone operation is exercised by no test on a non-trivial trie, and equality of lookups quantifies over all paths.',
 'src/path_matcher_node.cc',[('PathMatcherNode::Clone','src/path_matcher_node.cc')],[('children_','trie edges','PathMatcherNode')],['PathMatcherNode::Clone'])
p('C15','gRPC frames are reassembled exactly, however the bytes arrive',
 'For an input byte stream delivered in arbitrary chunks, the reader hands out message streams limited to exactly the payload bytes of consecutive frames (5-byte header: flag 0, big-endian 32-bit length), and reads from the input only the header of a message until all of its payload is available. If fewer than 5 header bytes, or less than the whole payload, are available, it returns nothing and resumes later without losing or repeating a byte. The reported frame header and message size are those of the message returned.',
 'inputs,schedules','all byte streams, all ways of chunking them and of interleaving arrival with reads',
 'tests split selected streams at selected places; reassembly quantifies over all chunkings, sizes (including 0 and >2^31) and call schedules.',
 'src/message_reader.cc '+H+'message_reader.h',[('NextMessage','src/message_reader.cc'),('ReadStream','src/message_reader.cc'),('DelimiterToSize','src/message_reader.cc')],[('have_current_message_size_','header consumed, payload pending','MessageReader'),('current_message_size_','length of the pending message','MessageReader')],['MessageReader::NextMessage','NextMessageAndGrpcFrame'])
p('C16','Malformed or truncated gRPC framing is reported, and only then',
 'The reader\'s status becomes an internal error exactly when a frame flag byte is non-zero, when the input has ended with 1 to 4 header bytes left, or when it has ended with an incomplete payload. Once it is finished or failed it stays so, returns nothing and reads nothing more; a stream that ends cleanly on a frame boundary finishes with OK status.',
 'inputs,schedules,fault_sequences','all byte streams, end positions and call schedules',
 'tests cover one instance of each error; permanence and exactness speak about all later calls and all streams.',
 'src/message_reader.cc '+H+'message_reader.h',[('status_, finished_','src/message_reader.cc NextMessage')],[('status_','sticky error','MessageReader'),('finished_','end of input','MessageReader')],['MessageReader::Status','MessageReader::Finished','MessageReader::NextMessage'])
p('C17','The byte stream over a message stream is their exact concatenation',
 'Reading the adapter created over a message stream yields exactly the concatenation of its messages in order, skipping empty ones; bytes returned with a valid back-up are delivered again, and an invalid back-up changes nothing. Reading returns false only when the underlying stream has finished and no byte is left, and true with size 0 when no byte is available yet; the available-byte count is exactly what the next read delivers, at most one message.',
 'inputs,histories,schedules','all message sequences (each shorter than 2^31 bytes) and all interleavings of Next, BackUp and BytesAvailable',
 'tests run fixed sequences; the claim is about every history of calls and arrival of messages.',
 'src/message_stream.cc '+H+'message_stream.h',[('InputStreamOverMessageStream','src/message_stream.cc')],[('message_, position_','current message and read offset','InputStreamOverMessageStream')],['MessageStream::CreateInputStream'])
p('C18','Request messages leave once, whole, with a prefix that reads back',
 'A translated request message is handed out at most once, only after the writer has completed it, and consists of exactly the bytes written for it; with delimiters enabled they are preceded by a 5-byte prefix, a zero flag byte followed by their number n (n < 2^32) in big-endian order. The reader\'s decoding of such a prefix is n again, and every 4-byte big-endian value is decoded to exactly that value.',
 'inputs,histories','all 2^32 message sizes and contents; all points at which the message is asked for',
 'tests use small messages, so the high length bytes are always zero.',
 'src/request_message_translator.cc src/message_reader.cc',[('ReserveDelimiterSpace, WriteDelimiter, SizeToDelimiter','src/request_message_translator.cc'),('DelimiterToSize','src/message_reader.cc')],[('message_, finished_','the text written so far; whether it was taken','RequestMessageTranslator')],['RequestMessageTranslator::NextMessage','MessageReader::NextMessageAndGrpcFrame'])
p('C19','The prefix writer nests each value under the prefix, balanced',
 'For every stream of writer events, each top-level value (scalar, object or list) is emitted wrapped in one object per prefix component, the outermost carrying the value\'s original name and the value itself named by the last component, and the wrapping objects are closed right after it. All events below the top level and all payloads are forwarded unchanged and in order. With an empty prefix the output equals the input.',
 'inputs,histories','all prefixes and all well-nested event sequences',
 'tests use a few prefixes and short event sequences.',
 'src/prefix_writer.cc '+H+'prefix_writer.h',[('StartPrefix/EndPrefix','src/prefix_writer.cc')],[('non_actionable_depth_','nesting depth','PrefixWriter')],['ObjectWriter events'])
p('C20','Request weaving inserts each binding exactly once, in its message',
 'For every well-nested event stream whose outermost value is an object, each binding (other than one dropped because the body renders its field, see C21) is emitted exactly once and inside the message its field path names: in the existing object when the body contains it, otherwise in an object created when the enclosing one closes; no binding is inserted inside lists. The events of the body are forwarded unchanged and in order.',
 'inputs,histories','all sets of bindings and all event streams',
 'tests weave a few bindings into a few bodies.',
 'src/request_weaver.cc '+H+'request_weaver.h',[('WeaveTree, FindWeaveMsg','src/request_weaver.cc')],[('root_, current_, non_actionable_depth_','weave tree cursor','RequestWeaver')],['ObjectWriter events'])
p('C21','Body values colliding with bindings are handled as specified',
 'When the body renders a non-repeated field that also has a binding, the body value wins and the binding is dropped, and with collision reporting on an invalid-argument status is set exactly when the two values differ after conversion to the body value\'s type (floating point up to a fixed tolerance; bytes are compared as the text they are given as) or the binding cannot be converted; a null value neither drops a binding nor collides. For a repeated field the bound values are emitted before the body value and no collision is reported.',
 'inputs','all pairs of body and bound values of every scalar type',
 'tests compare small integers only; 64-bit and negative values are never compared.',
 'src/request_weaver.cc',[('isEqual, CollisionCheck','src/request_weaver.cc')],[('report_collisions_','flag','RequestWeaver')],['RequestWeaver::Status'])
p('C22','Streaming request translation yields one message per array element',
 'For every event stream whose outermost value is an array, each element (object, list or scalar) is translated to exactly one output message, in order, with the variable bindings woven only into the first one and the request options applied to all; anything else outermost, or an unbalanced close, is an invalid-argument error after which no event is processed. The stream is finished exactly when the outer array has closed and every message was taken, or on error.',
 'inputs,histories','all event streams',
 'tests translate short arrays.',
 'src/request_stream_translator.cc '+H+'request_stream_translator.h',[('depth_ state machine','src/request_stream_translator.cc')],[('depth_, done_, messages_','array nesting and output queue','RequestStreamTranslator')],['RequestStreamTranslator::NextMessage','Finished'])
p('C23','Lazy JSON request translation feeds input exactly once, in order',
 'Asking for a message passes input chunks to the JSON parser in order, each exactly once, only until an output message is available, and stops at a chunk of size zero. An input that ends without any data is translated as "{}"; otherwise the parser is told that the input ended. Parser and translation errors are reported as the status and end the stream.',
 'inputs,schedules','all chunkings of the input and schedules of calls',
 'tests use a fixed number of chunkings.',
 'src/json_request_translator.cc',[('LazyRequestTranslator','src/json_request_translator.cc')],[('seen_input_','any input seen','LazyRequestTranslator')],['JsonRequestTranslator::Output'])
p('C24','Streamed JSON responses are framed as one array or as lines',
 'For a streaming response the concatenation of the returned pieces is "[" then the messages\' JSON separated by "," then "]" (and "[]" for no message), or, in newline-delimited mode, each message\'s JSON followed by "\\n" and nothing else. A non-streaming response is exactly the JSON of the first message and then the stream is finished. Framing errors end the stream with the reader\'s status.',
 'inputs,schedules','all sequences of messages and arrival schedules',
 'tests use fixed message lists and ignore the piece returned at the end of a newline-delimited stream.',
 'src/response_to_json_translator.cc '+H+'response_to_json_translator.h',[('NextMessage, TranslateMessage','src/response_to_json_translator.cc')],[('first_, finished_','array framing state','ResponseToJsonTranslator')],['ResponseToJsonTranslator::NextMessage'])
p('C25','Field paths resolve to exactly the chain of fields they name',
 'Resolving a field path succeeds exactly when each name is a field (also after percent-decoding) of the message type reached so far and every field but the last is a message whose type is known, and then yields those fields in order; the empty path yields no field. On failure an invalid-argument status is returned and the output is left unchanged. A helper made from a collection of types and enums resolves the URL "type.googleapis.com/" + name of each of them to that object (the first of that name) and no other URL.',
 'inputs','all type collections and field paths',
 'tests resolve paths in one or two schemas.',
 'src/type_helper.cc '+H+'type_helper.h',[('ResolveFieldPath, FindField','src/type_helper.cc'),('SimpleTypeResolver','src/type_helper.cc')],(),['TypeHelper::ResolveFieldPath'])
p('C26','Type information shared between threads is accessed under a lock',
 'Every access to the shared, lazily caching type information goes through one lock that is held for the whole access and released afterwards, so concurrent lookups never race.',
 'schedules','all interleavings of concurrent lookups',
 'no test runs lookups concurrently.',
 'src/type_helper.cc',[('LockedTypeInfo','src/type_helper.cc')],[('mutex_','guards type_info_','LockedTypeInfo')],['TypeHelper::Info'])
p('C27','Request options and bindings reach the translation pipeline',
 'A request message translator writes the given message type, ignoring unknown fields, with relaxed base64 decoding, the requested handling of enum case and all other writer options at their defaults. A body field path other than "" and "*" puts the body below that path; if there are variable bindings exactly these are woven into the message, collisions with the body being reported exactly when requested, and without bindings nothing is woven. Its status is the last error that the writer or the weaving reported, errors of names, values and missing fields being invalid-argument errors.',
 'configurations,inputs','all combinations of options, bindings and body field paths',
 'tests fix one option at a time and never look at the writer options.',
 'src/request_message_translator.cc src/status_error_listener.cc '+H+'request_message_translator.h',[('constructor','src/request_message_translator.cc'),('StatusErrorListener','src/status_error_listener.cc')],[('writer_pipeline_','where body events enter','RequestMessageTranslator'),('status_','last error','StatusErrorListener')],['RequestMessageTranslator::Input','RequestMessageTranslator::Status'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
