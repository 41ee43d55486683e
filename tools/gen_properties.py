#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the long text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": None}})
H='src/include/grpc_transcoding/'
PM, PMN, PMNC = H+'path_matcher.h', H+'path_matcher_node.h', 'src/path_matcher_node.cc'
HT, HTC, PE, PMU = H+'http_template.h', 'src/http_template.cc', H+'percent_encoding.h', H+'path_matcher_utility.h'
MR, MRC, MS, MSC = H+'message_reader.h', 'src/message_reader.cc', H+'message_stream.h', 'src/message_stream.cc'

prop('C01','URL template parsing accepts exactly the documented grammar',
 'HttpTemplate::Parse returns a template for every byte string that the documented HTTP template grammar derives and nullptr for every other byte string. '
 'The grammar is: "/" alone or "/" Segments [":" LITERAL]; Segment = "*" | "**" | LITERAL | "{" IDENT {"." IDENT} ["=" Segments] "}", with no variable inside a variable and nothing but literals anywhere after the first "**". '
 'LITERAL is a non-empty run of bytes other than "/", ":" and "}" that, as a path segment, starts with neither "*" nor "{"; IDENT is a non-empty run of bytes other than ".", "}" and "=".',
 ['inputs'],'every byte string offered as a template, of any length and any byte values',
 'The unit tests parse a few dozen hand-written templates, the fuzz test in the repository only looks for crashes; neither says anything about which of the other strings are accepted.',
 [HTC,HT],[('recursive-descent Parser over the grammar','src/http_template.cc Parser'),('only constants after "**"','src/http_template.cc Parser::ValidateParts')],
 [{'name':'tb_/te_','meaning':'token window of the hand-written scanner','where':'src/http_template.cc'}],['HttpTemplate::Parse'])

prop('C02','A parsed template keeps every segment, verb and variable of its text',
 'For every accepted template, the parsed segments are exactly the template\'s path segments in order (a variable contributing its inner pattern, "{x}" meaning "{x=*}"), and the verb is exactly the text after the final ":" (empty if there is none). '
 'The variables appear in textual order with their exact field path and with the segment range they cover, so that interpreting the range on the template\'s own segments gives back the variable\'s own pattern; ranges whose end depends on what "**" matches are expressed relative to the end of the path. '
 'Consequently, printing a parsed template in canonical form and parsing it again gives an equal template, and different structures never parse to equal results.',
 ['inputs'],'every template the grammar derives, with any number of segments and variables, any names and literals',
 'Tests check the parse of a few dozen short templates; combinations (several variables around a "**", long literals, unusual bytes, verbs after variables) are not sampled.',
 [HTC,HT],[('segment and variable bookkeeping while parsing','src/http_template.cc StartVariable/EndVariable/AddFieldIdentifier'),('end-relative ranges','src/http_template.cc PostProcessVariables')],
 [{'name':'Variable.start_segment/end_segment','meaning':'[start,end) of segments the variable covers; negative = relative to the end of the path','where':HT}],['HttpTemplate::segments/verb/Variables'])

prop('C03','A request is routed to a registered template iff one matches it',
 'For any set of registered (HTTP method, template) pairs without duplicates, Lookup returns a method only if its template matches the request path segment for segment and its HTTP method equals the request\'s or is "*", and it returns no method only when no registered pair matches. '
 'A literal matches only an identical segment, "*" any single segment, a final "**" zero or more segments and a "**" followed by literals one or more segments; everything from the first "?" and trailing slashes are ignored. '
 'The outcome depends on nothing else: pattern characters such as "*" or "**" occurring in the request path itself are ordinary text.',
 ['inputs','configurations'],'every set of registered templates and HTTP methods, every builder option setting and every request path that starts with "/"',
 'path_matcher_test registers around a hundred fixed templates and looks up fixed paths; sets of overlapping templates that need backtracking out of a dead end (literal, then "*", then "**") and negative answers are only sampled.',
 [PM,PMN,PMNC],[('trie insertion','src/path_matcher_node.cc InsertTemplate'),('backtracking depth-first lookup','src/path_matcher_node.cc LookupPath'),('request path splitting',PM+' ExtractRequestParts')],
 [{'name':'children_','meaning':'trie edges keyed by literal or by "*"/"**"','where':PMN},{'name':'result_map_','meaning':'method registered at a node per HTTP method','where':PMN}],['PathMatcher::Lookup'])

prop('C04','Among matching templates the most specific wins, in any registration order',
 'When several registered templates match a request, Lookup returns the one that is most specific at the leftmost segment where they differ: literal before "*" before "**", a template that ends with the path before one whose "**" matches nothing there, and after a common "**" the longer literal suffix; for one and the same template shape an exact HTTP method beats the "*" method. '
 'A more specific template that is not registered for the request\'s HTTP method does not hide a less specific one that is. '
 'Neither the order in which the templates were registered nor the presence of non-matching templates changes the answer.',
 ['inputs','configurations','histories'],'every set of overlapping templates, every order of registration, every request',
 'The tests fix one registration order per case and compare a handful of overlapping pairs; three-way overlaps, per-method holes and order permutations are open.',
 [PM,PMN,PMNC],[('order of child visits','src/path_matcher_node.cc LookupPath'),('method then wildcard method','src/path_matcher_node.cc GetResultForHttpMethod')],None,['PathMatcher::Lookup'])

prop('C05','Path variables are bound to exactly the path text they cover',
 'On a match, Lookup reports one binding per variable of the matched template, in template order and before any query binding, carrying the variable\'s field path and the request segments matched by that variable\'s own pattern joined by "/". '
 'A variable that covers one segment that is not "**" is percent-decoded completely; a variable that covers several segments or a "**" is decoded according to the configured path-unescape option, segment by segment, and "+" is never turned into a space. '
 'This holds wherever the variable stands: before, at, or after a "**", and when the "**" matches no segments.',
 ['inputs','configurations'],'every template with variables, every matching path (including empty and percent-encoded segments), each of the three unescape options',
 'Tests check bindings for about thirty path/template pairs; a variable following "**", several variables around "**", empty inner segments and mixed encodings are not covered.',
 [PM,HTC,PE],[('segment range arithmetic',PM+' ExtractBindingsFromPath'),('end-relative ranges','src/http_template.cc PostProcessVariables'),('per-segment decoding',PE+' UrlUnescapeString')],None,['PathMatcher::Lookup variable_bindings'])

prop('C06','Percent-decoding is exact for every byte and every mode',
 'Percent-decoding replaces, in one left-to-right pass without rescanning its output, every "%" followed by two hex digits (either case) by the byte they denote and leaves every other byte alone, including incomplete or malformed escapes. '
 'The default mode keeps escapes of the RFC 6570 reserved characters !#$&\'()*+,/:;=?@[] exactly as written, the except-slash mode keeps only the escape of "/", the full mode keeps none, and "+" becomes a space exactly when that option is on. '
 'Hence decoding any percent-encoding of any byte string in full mode gives back that string, and IsUrlEscapedString says true exactly when decoding would replace something.',
 ['inputs'],'every byte string, all three modes, with and without plus decoding',
 'There is no unit test of the decoder; the matcher tests reach a few dozen escapes of the 65536 two-character suffixes and never malformed ones at string ends.',
 [PE],[('GetEscapedChar',PE),('IsReservedChar',PE),('UrlUnescapeString',PE)],None,['UrlUnescapeString','IsUrlEscapedString','PathMatcher::Lookup bindings'])

prop('C07','Query parameters become bindings, in order, except system parameters',
 'On a match, after the path bindings, Lookup reports exactly one binding for each "&"-separated query parameter that has an "=" after a non-empty name which is not one of the matched method\'s system parameter names, in query order with duplicates kept. '
 'The name is everything before the first "=", split at "." into the field path and not decoded; the value is everything after that first "=", fully percent-decoded whatever the path-unescape option says, with "+" turned into a space exactly when that option is set. '
 'System parameter names apply only to the methods registered with them.',
 ['inputs','configurations'],'every query string, every system parameter set per method, both plus settings',
 'Tests use some twenty query strings; empty values, repeated "=", empty items, names that need decoding, per-method system parameter sets are mostly unsampled.',
 [PM,PE],[('query splitting and filtering',PM+' ExtractBindingsFromQueryParameters')],None,['PathMatcher::Lookup variable_bindings'])

prop('C08','Custom verbs are matched exactly and independently of the HTTP method',
 'The text after the last ":" of a request path, if that ":" comes after the last "/", is taken as a custom verb exactly when some registered template uses that verb or the match-unregistered-verb option is on; otherwise it stays part of the last segment. '
 'A request with a (recognised, non-empty) verb is routed only to templates with that same verb, a request without one only to templates without one. '
 'HTTP method and verb are compared separately: the "*" method stands for any HTTP method but never for a verb, and no concatenation of one method and verb can pass for another.',
 ['inputs','configurations'],'every registered set of verbs, templates and HTTP methods (including custom method names and "*"), both option settings, every request path',
 'Tests use two or three verbs with GET/POST; "*"-method templates with verbs, verbs that look like method suffixes, colons in earlier segments together with wildcards are untested.',
 [PM,PMNC],[('verb recognition',PM+' ExtractRequestParts'),('method+verb key',PM+' Register/Lookup'),('wildcard method','src/path_matcher_node.cc GetResultForHttpMethod')],
 [{'name':'custom_verbs_','meaning':'verbs used by any registered template','where':PM}],['PathMatcher::Lookup'])

prop('C09','Invalid templates are refused without effect; duplicates make a route ambiguous',
 'Register returns false and leaves all routing unchanged for every string that is not a valid template, and returns true for a valid template unless fail-on-duplicate is set and the same template shape, verb and HTTP method were registered before. '
 'Two templates are the same shape when they differ only in variable names and grouping; once a shape, verb and HTTP method have been registered more than once, Lookup of any request that this route wins returns no method (it does not fall back to a less specific route), while all other routes keep working. '
 'Whether the duplicate registration was refused or not, nothing is corrupted and the answers stay the same for the life of the matcher.',
 ['histories','inputs','configurations'],'every sequence of registrations with valid, invalid and duplicate templates, toggling fail-on-duplicate in between, and every later lookup',
 'Tests register one duplicate pair and two invalid templates; interleavings of refused registrations with good ones and with option changes are not exercised.',
 [PM,PMNC],[('duplicate marking','src/path_matcher_node.cc InsertTemplate'),('Register error paths',PM+' Register/InsertPathToNode')],
 [{'name':'is_multiple','meaning':'the route was registered more than once','where':PMN}],['PathMatcherBuilder::Register','PathMatcher::Lookup'])

prop('C10','Registering an HttpRule equals registering each of its bindings',
 'Registering a google.api.HttpRule has exactly the effect of registering, in order, its pattern (get, put, post, delete, patch, or custom with its own kind as HTTP method) with its body field, and then recursively each additional binding with that binding\'s own pattern and body, all with the same method and system parameters. '
 'It returns true iff all of these succeed and stops at the first failure; a rule without a pattern registers nothing by itself and is not an error.',
 ['inputs','configurations'],'every HttpRule message, including nested additional bindings, missing patterns, invalid templates at any position, and duplicates with fail-on-duplicate',
 'path_matcher_utility_test uses a mock builder with a few fixed rules; nested bindings, failures in the middle and the end-to-end routing result are not covered.',
 [PMU,PM],[('recursion over additional_bindings',PMU+' RegisterByHttpRule')],None,['PathMatcherUtility::RegisterByHttpRule','PathMatcher::Lookup'])

prop('C11','Lookup is a pure function of matcher and request, safe to call concurrently',
 'Once built, a matcher answers each request the same way every time, whatever other lookups came before or run at the same time on other threads, and concurrent lookups are free of data races. '
 'The short Lookup overload returns the same method as the full one, a null output pointer only suppresses that output, and the outputs depend only on the matched request: on a match the binding list and body field path are replaced, never appended to. '
 'Without a match the caller\'s outputs are left untouched.',
 ['schedules','histories','inputs'],'every matcher, every sequence and every concurrent interleaving of lookups, any initial content of the output arguments',
 'Tests call Lookup once per request from a single thread with fresh outputs.',
 [PM,PMNC],[('const lookup on an immutable trie',PM+' PathMatcher::Lookup'),('clear-then-fill of outputs',PM+' PathMatcher::Lookup')],None,['PathMatcher::Lookup'])

prop('C12','gRPC de-framing returns exactly the framed messages, however the bytes arrive',
 'For any sequence of uncompressed gRPC frames and any way the bytes are split into buffers and made available over time, MessageReader returns exactly the framed messages, in order, each exactly once and with exactly its bytes, for every length from 0 to 2^32-1. '
 'The frame variant additionally returns the message\'s exact five header bytes and its length. '
 'After the last message, once the input is finished, the reader reports Finished with an OK status.',
 ['inputs','schedules'],'every sequence of message lengths and contents, every chunking of the byte stream, every arrival schedule and polling schedule of the caller',
 'message_reader_test uses a few short messages and fixed splits; lengths that need the 2nd, 3rd or 4th length byte with a high bit, headers split at every offset and repeated polling are not covered.',
 [MRC,MR],[('header assembly','src/message_reader.cc ReadStream/DelimiterToSize'),('per-message limiting stream','src/message_reader.cc NextMessage')],
 [{'name':'have_current_message_size_','meaning':'header of the next message already read','where':MR}],['MessageReader::NextMessage','MessageReader::NextMessageAndGrpcFrame'])

prop('C13','Malformed or truncated gRPC frames are reported as errors, never as data',
 'A frame whose first byte is not zero, and an input that finishes inside a frame header or before a frame\'s announced length, makes the reader return no message and report an INTERNAL status, permanently, with Finished true. '
 'All complete messages before the fault are still returned intact, and no byte of the faulty frame is ever handed out as a message. '
 'Conversely an error status is reported only for such a fault: never for valid input, and never merely because the rest of a frame has not arrived yet.',
 ['fault_sequences','inputs','schedules'],'every truncation point and every non-zero flag byte in every stream of frames, under every chunking and arrival schedule',
 'Tests check one truncated header, one truncated body and one flag value, each in a single buffer.',
 [MRC,MR],[('flag check, truncation checks','src/message_reader.cc NextMessage')],None,['MessageReader::Status','MessageReader::Finished'])

prop('C14','The message reader consumes nothing it has not delivered',
 'While a message is incomplete the reader takes from the underlying stream nothing beyond that message\'s five header bytes, and it takes no header before all five bytes are available; polling again while nothing new has arrived returns nothing and changes nothing. '
 'When a message has been delivered and fully read, the underlying stream stands exactly at the first byte after it, so bytes that belong to the next frame are neither lost nor read twice. '
 'The stream it returns never exposes bytes beyond its message, and it never uses the underlying stream contrary to the ZeroCopyInputStream contract (e.g. BackUp more than was returned).',
 ['schedules','histories','inputs'],'every arrival schedule, every polling schedule and every way of reading the returned message (whole, piecemeal, with BackUp and Skip)',
 'The tests read each message in one go from a stream that never checks how it is used.',
 [MRC,MR],[('availability check before reading','src/message_reader.cc NextMessage'),('BackUp of uncopied bytes','src/message_reader.cc ReadStream')],None,['TranscoderInputStream calls made by MessageReader'])

prop('C15','The byte-stream view of a message stream is the concatenation of its messages',
 'Reading the input stream that MessageStream::CreateInputStream returns, with any interleaving of Next, BackUp, BytesAvailable and Finished and with messages arriving at any time, yields exactly the concatenation of the source\'s messages in order: nothing lost, duplicated or reordered, empty messages contributing nothing. '
 'Next returns true with size 0 when nothing is available yet and false only when everything was read and the source has finished; BytesAvailable equals what the next call to Next returns; after a BackUp(n) that the ZeroCopyInputStream contract permits (directly after a Next that returned at least n bytes) the last n bytes are read again, and a BackUp of a negative number of bytes or of more than the current message has is ignored.',
 ['histories','schedules','inputs'],'every history of calls on the stream, every arrival schedule of (possibly empty) messages and of the end of the stream',
 'message_stream_test drives four fixed sequences; BackUp mixed with BytesAvailable and late-arriving or empty messages are hardly sampled.',
 [MSC,MS],[('InputStreamOverMessageStream','src/message_stream.cc')],
 [{'name':'message_/position_','meaning':'current message and read position','where':MSC}],['MessageStream::CreateInputStream'])

prop('C16','No input crashes, corrupts memory, hangs or costs exponential time',
 'Parsing any byte string as a template, registering it (templates of up to about a thousand segments: registration and lookup recurse once per template segment), looking up any request path and query (any bytes, any length), decoding any string and de-framing any byte stream terminates without a crash, out-of-bounds access or undefined behaviour. '
 'The work of a lookup is bounded by a polynomial in the number of registered template segments and request segments: no request path can make the backtracking search exponential.',
 ['inputs','fault_sequences'],'every byte string at every entry point, including adversarial paths built from pattern characters, very long inputs and embedded NULs',
 'Unit tests use short printable inputs; the repository\'s two fuzz targets are not run by the build and cover neither lookup nor the cost of a lookup.',
 [HTC,PM,PMNC,PE,MRC],[('trie search','src/path_matcher_node.cc LookupPath'),('scanner bounds','src/http_template.cc NextChar/current_char'),('escape bounds',PE+' GetEscapedChar')],None,['all public entry points'])

RJ, RJC = H+'response_to_json_translator.h','src/response_to_json_translator.cc'
RW, RWC = H+'request_weaver.h','src/request_weaver.cc'
PW, PWC = H+'prefix_writer.h','src/prefix_writer.cc'
RS, RSC = H+'request_stream_translator.h','src/request_stream_translator.cc'
RM, RMC = H+'request_message_translator.h','src/request_message_translator.cc'
JR, JRC = H+'json_request_translator.h','src/json_request_translator.cc'
TH, THC = H+'type_helper.h','src/type_helper.cc'
SE, SEC = H+'status_error_listener.h','src/status_error_listener.cc'

prop('C17','A gRPC response stream becomes one well-formed JSON array or line sequence',
 'For any sequence of response messages, the concatenated output of the response translator is, in streaming mode, one JSON array holding exactly one element per message in order ("[]" for none), in newline-delimited mode one line per message, and in unary mode exactly the one message\'s JSON. '
 'Every element equals the canonical JSON form of that message under the configured print options, so converting it back gives the original message. '
 'The end of the stream is reported exactly once and no text follows it.',
 ['inputs','configurations','histories'],'every message type and content, every number of messages including none, each streaming mode and print option',
 'The tests translate a few bookstore messages in fixed splits; they are not even part of the buildable test set here.',
 [RJC,RJ],[('delimiters around messages','src/response_to_json_translator.cc TranslateMessage/NextMessage'),('first_ flag',RJ)],None,['ResponseToJsonTranslator::NextMessage'])

prop('C18','Response output is independent of byte arrival; bad input is an error',
 'The output of the response translator is the same for every split of the framed response bytes into buffers and every arrival schedule, and each message\'s text is available as soon as its frame is complete. '
 'A malformed frame, a truncated frame or a message body that the JSON conversion of the response type rejects or cannot read to its end yields an error status after the output of the good messages before it, and nothing further; valid input never does.',
 ['schedules','fault_sequences','inputs'],'every chunking and schedule, every corruption or truncation point',
 'Existing tests for this component do not build here and use fixed splits.',
 [RJC,RJ,MRC],[('status propagation','src/response_to_json_translator.cc NextMessage')],None,['ResponseToJsonTranslator::NextMessage/Status/Finished'])

prop('C19','Request bindings are woven into the message exactly as if sent in the body',
 'Weaving variable bindings into a stream of request fields produces the message one would get by writing each bound value at its (nested, repeated or map-entry) field path in the body, without losing, duplicating or misplacing any field of the original body, whether the body calls its fields by their proto or their JSON names. '
 'A field the body already gives a value keeps the body\'s (unless it is repeated: then the bound values are added); a binding with an empty path changes nothing. Several bindings of one repeated field append in order; bindings sharing a prefix share one nested message; body fields keep their values and positions.',
 ['inputs','configurations'],'every body structure, every set of bindings with distinct or shared prefixes',
 'The weaver tests do not build here and check a few fixed event sequences.',
 [RWC,RW],[('pending bindings tree','src/request_weaver.cc Bind/WeaveInfo')],None,['RequestWeaver as ObjectWriter'])

prop('C20','Binding/body conflicts are detected exactly',
 'With collision rejection on, a request whose body also sets a field that a URL binding sets is rejected exactly when the two values differ, for every scalar type over its whole value range; equal values are accepted and with rejection off the binding never causes an error. '
 'The binding\'s text is read in the type the body\'s value is written with - integer, real, boolean or string - in full width: no truncation, no overflow, no spurious inequality from number formatting (reals within a small tolerance count as equal); a text that cannot be read so differs. It does not matter whether the body uses proto or JSON names, how deep the field lies, or whether the request is streamed. A body value of null, or one inside a list, does not collide.',
 ['inputs','configurations'],'every scalar field type and value pair in the type\'s range, nesting depth, both option settings',
 'The weaver tests do not build here; they try one or two small values per type.',
 [RWC,RW],[('CollisionCheck/isEqual','src/request_weaver.cc')],None,['RequestWeaver::Status'])

prop('C21','A body field path wraps the body exactly at that field',
 'For every body JSON value and body field path, the translated request is the message whose field at that path is the body and nothing else: objects, lists, scalars and nulls are all wrapped, in streams each element separately, and the nesting is opened and closed exactly once per message.',
 ['inputs','configurations'],'every prefix depth and every body event sequence',
 'The prefix writer tests do not build here and check fixed event sequences.',
 [PWC,PW],[('prefix tracking','src/prefix_writer.cc')],None,['PrefixWriter as ObjectWriter'])

prop('C22','Field paths resolve to exactly the declared fields',
 'Resolving a field path succeeds exactly when each name is the proto or JSON name of a field of the message type reached so far - as given or, failing that, percent-decoded - and every name but the last leads to a known message type; it gives those fields in order; every other path is an error. In the dotted form empty names are skipped, and the empty path denotes the message itself. '
 'The answer does not depend on earlier or concurrent resolutions.',
 ['inputs','schedules','histories'],'every message type and field path, in any order and from several threads',
 'The type helper tests do not build here and resolve a few fixed paths on one thread.',
 [THC,TH],[('ResolveFieldPath','src/type_helper.cc'),('LockedMap cache','src/type_helper.cc')],None,['TypeHelper::ResolveFieldPath'])

prop('C23','A JSON request becomes exactly the framed messages it denotes, for any chunking',
 'The concatenated output of the JSON request translator is, for a unary request the single message denoted by body and bindings, and for a streaming request one message per element of the top-level array in order; with delimiters on, each is preceded by the zero flag byte and its exact big-endian length. '
 'The result is the same for every split of the JSON text into chunks, and every translation option applies to streamed messages exactly as to unary ones. '
 'Malformed JSON or a value that does not fit the message type ends in an error status after which no further message is handed out, never in a silently altered message, and valid input never does. (Whether text that follows the complete value of a unary request is noticed is left open.)',
 ['inputs','schedules','configurations','fault_sequences'],'every JSON document, chunking, option setting and streaming mode',
 'The request translator tests do not build here and use a few fixed documents and splits.',
 [JRC,JR,RSC,RS,RMC,RM,SEC,SE],[('array splitting','src/request_stream_translator.cc'),('delimiter insertion','src/request_message_translator.cc'),('lazy parsing','src/json_request_translator.cc')],None,['JsonRequestTranslator::Output'])

prop('C24','From HTTP request to messages and back, nothing is lost between the modules',
 'For a request that matches a registered HttpRule (its pattern or an additional binding), looking it up, resolving the field paths of the bindings it reports and translating the JSON body with them yields exactly the messages in which the rule\'s body field holds the body and every field bound by a path variable or query parameter holds the decoded value, however the values are spread over path and query, spelled (proto or JSON names) and escaped, however the body arrives, and whether the types were supplied as a list or by a resolver. '
 'Those messages, read as a framed byte stream by the response translator, come out as one JSON text each, in order, that converts back to the same messages.',
 ['inputs','configurations','schedules'],'every rule, every assignment of values to path, query and body, every option setting, chunking and streaming mode',
 'No test connects the path matcher, the type helper, the request translator and the response translator.',
 [PM,PMU,THC,JRC,RWC,PWC,RSC,RMC,MSC,MRC,RJC],[('bindings from path and query',PM+' Lookup'),('resolution of their field paths','src/type_helper.cc ResolveFieldPath'),('weaving, prefixing and framing','src/json_request_translator.cc'),('de-framing and JSON','src/response_to_json_translator.cc')],None,['PathMatcher::Lookup, JsonRequestTranslator::Output, ResponseToJsonTranslator::NextMessage'])

prop('C25','Independent translations never affect one another',
 'What a request translator, a response translator or a message reader produces - messages, texts, statuses, the moment each appears - depends only on its own options, bindings and input. '
 'It is the same whether the object is used alone, in alternation with any number of other such objects in one thread, at the same time as others in other threads, or after others have failed or been abandoned half-way, also when they share the type information. Using separate objects from separate threads is free of data races.',
 ['schedules','histories','inputs'],'every set of translations, every interleaving of their steps and every assignment to threads',
 'The tests use one object at a time; state shared by mistake between objects (static buffers, caches) shows only under interleaving or with several threads.',
 [JRC,RSC,RMC,RWC,PWC,RJC,MRC,MSC,THC],[('per-object state','src/request_stream_translator.cc, src/request_weaver.cc, src/message_reader.cc'),('shared type information','src/type_helper.cc LockedMap')],None,['JsonRequestTranslator::Output','ResponseToJsonTranslator::NextMessage','MessageReader::NextMessage'])

prop('C26','Requests given as object-writer events translate like JSON',
 'A message described to RequestMessageTranslator::Input() or RequestStreamTranslator by any object-writer events that denote it - whichever rendering functions carry the values - comes out as exactly that message with the bindings and the body prefix applied, in streams one message per list element in order. '
 'In streams each message is available when the events of its element are complete, not before. Events that do not form a list of messages, or that do not fit the message type, end in an error status and yield no message but the good ones before.',
 ['inputs','configurations'],'every message, every choice of rendering functions, every list of elements and every option setting',
 'The translator tests do not build here and render a few fixed messages.',
 [RSC,RS,RMC,RM,RWC,PWC,SEC],[('event forwarding per element','src/request_stream_translator.cc'),('writer chain','src/request_message_translator.cc')],None,['RequestStreamTranslator::NextMessage','RequestMessageTranslator::NextMessage'])

prop('C27','A path tree answers by what was inserted into it; clones are separate',
 'PathMatcherNode::InsertPath returns true exactly when the tree holds no insertion with the same HTTP method and the same path pattern; a repeated one replaces the data and, if asked to mark duplicates, marks the entry as registered more than once for good. '
 'LookupPath gives the data and mark of the most specific matching entry and leaves the result empty when nothing matches. Clone gives a tree that answers every lookup as the original does at that moment; what is inserted afterwards into either, or destroying either, does not affect the other.',
 ['histories','inputs'],'every history of insertions, clones and lookups over a family of trees',
 'No test uses the tree directly; the path matcher never clones it and always marks duplicates.',
 [PMN,PMNC],[('insertion','src/path_matcher_node.cc InsertTemplate'),('deep copy','src/path_matcher_node.cc Clone')],
 [{'name':'result_map_/children_/wildcard_','meaning':'registrations ending at a node, its children, whether it stands for "**"','where':PMN}],['PathMatcherNode::LookupPath/InsertPath/Clone'])

prop('C28','Translation is on demand and prompt: input is read only when and as far as needed',
 'Creating a translator or a byte stream over one, and asking for Finished() or Status(), reads no input. Asking for a message (or for bytes, or how many there are) reads none while what was read before still holds an unreported message or unread bytes, nor after the translation is complete or has failed. '
 'Otherwise the request translator reads just as many chunks as it takes until the next message is complete, and hands that message out at once; the response translator reads no byte beyond the message it returns, and while it waits for one no more than its frame header; the byte stream over a message stream takes messages from it only until the first that is not empty.',
 ['histories','schedules','inputs'],'every request, response and message stream, every chunking, arrival schedule and sequence of polls',
 'Flow control depends on it (see transcoder.h), but the tests only look at what comes out, not at when and how much input is taken.',
 [JR,JRC,RSC,RMC,RJC,MRC,MSC,H+'transcoder.h'],[('chunk by chunk translation','src/json_request_translator.cc LazyRequestTranslator'),('one message ahead','src/message_stream.cc InputStreamOverMessageStream'),('one frame at a time','src/response_to_json_translator.cc NextMessage')],None,['the input stream\'s Next()','JsonRequestTranslator::Output','ResponseToJsonTranslator::NextMessage'])
prop('C29','Every error blames the right side, names the culprit and stays',
 'Whatever is wrong with a request - malformed or cut-off JSON, a value its field does not take, a body of the wrong kind, a binding that cannot be converted or that conflicts with the body, a field path that leads nowhere - is reported as INVALID_ARGUMENT with a message; a conflict names the field, a bad path the name that is not found or cannot be entered. '
 'Whatever is wrong with a response\'s framing or with bytes left over in a message is reported as INTERNAL, and a message the JSON conversion refuses with the conversion\'s own code. In a response the error comes after exactly the good messages before it, in a request after none but those; it never comes together with a message, and from then on the status stays the same, Finished() is true, no message is handed out and no input is read; a NextMessage that returns false leaves its argument alone.',
 ['inputs','schedules','histories'],'every fault in a request, a response or a field path, at every place, chunking and arrival schedule',
 'Proxies turn the code into 400 or 500 and give up on the stream when it appears; the tests look at some codes right after the first failure only.',
 [JR,JRC,RSC,RMC,RJC,MRC,RWC,THC,H+'status_error_listener.h','src/status_error_listener.cc'],[('error events to a status','src/status_error_listener.cc'),('conflicts','src/request_weaver.cc isEqual'),('first error stops','src/json_request_translator.cc CheckParsingStatus'),('framing faults','src/message_reader.cc NextMessage'),('path errors','src/type_helper.cc ResolveFieldPath')],None,['MessageStream::Status','ResponseToJsonTranslator::Status','TypeHelper::ResolveFieldPath'])
prop('C30','Work and memory stay in proportion to the data, however long it goes on',
 'A request, response or message stream of any length is processed in bounded memory: what a translator, message reader or byte stream holds depends on the largest chunks and messages, not on how many have gone through it before, and neither does the work per message. Lookups and path resolutions, however many and however different, do not make the matcher or the type helper grow. '
 'Translating or de-framing a message, decoding a string, extracting bindings, parsing a template, registering routes and translating the messages of one chunk cost work linear in the size of the data. An object that is destroyed, at whatever point and after whatever errors, gives back all the memory that was allocated for it.',
 ['histories','inputs','schedules'],'every length of stream, every number of lookups, every size of message, path, query and rule, every point of destruction',
 'Gateways run these for weeks on streams without end; the tests feed a handful of messages and measure nothing.',
 [JR,JRC,RSC,RMC,RJC,MRC,MSC,PMN,PMNC,THC],[('queue of messages','src/request_stream_translator.cc messages_'),('lazy reading','src/json_request_translator.cc LazyRequestTranslator'),('one message held','src/message_stream.cc InputStreamOverMessageStream'),('immutable tree','src/path_matcher_node.cc LookupPath')],None,['operator new and delete, block moves, executed edges'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties;', max(len(p['title']) for p in P), 'longest title')
