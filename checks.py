"""What each check runs and how it is described (MANIFEST.json is generated from this)."""

_CORE = ["src/http_template.cc", "src/path_matcher_node.cc"]
_MSG = ["src/message_reader.cc"]
_JSON = ["src/json_request_translator.cc", "src/message_reader.cc", "src/message_stream.cc", "src/prefix_writer.cc", "src/request_message_translator.cc",
         "src/request_stream_translator.cc", "src/request_weaver.cc", "src/response_to_json_translator.cc", "src/status_error_listener.cc", "src/type_helper.cc"]
_CONV = {"repo": _JSON, "include": ["shim/include"], "protos": ["conv"]}

BINARIES = {
    "tmpl": {"verif": ["props/tmpl.cc"], "repo": _CORE},
    "route": {"verif": ["props/route.cc"], "repo": _CORE},
    "bind": {"verif": ["props/bind.cc", "props/pct.cc"], "repo": _CORE},
    "hist": {"verif": ["props/hist.cc"], "repo": _CORE},
    "node": {"verif": ["props/node.cc"], "repo": _CORE},
    "rule": {"verif": ["props/rule.cc"], "repo": _CORE, "protos": ["google/api/http"]},
    "threads": {"verif": ["props/threads.cc"], "repo": _CORE},
    "reader": {"verif": ["props/reader.cc"], "repo": _MSG},
    "mstream": {"verif": ["props/mstream.cc"], "repo": ["src/message_stream.cc"]},
    "robust": {"verif": ["props/robust.cc"], "repo": _CORE + _MSG},
    "resp": dict(_CONV, verif=["props/resp.cc", "shim/shim.cc"]),
    "req": dict(_CONV, verif=["props/req.cc", "shim/shim.cc"]),
    "events": dict(_CONV, verif=["props/events.cc", "shim/shim.cc"]),
    "weave": dict(_CONV, verif=["props/weave.cc", "shim/shim.cc"]),
    "demand": dict(_CONV, verif=["props/demand.cc", "shim/shim.cc"]),
    "errors": dict(_CONV, verif=["props/errors.cc", "shim/shim.cc"]),
    "types": dict(_CONV, verif=["props/types.cc", "shim/shim.cc"]),
    "side": dict(_CONV, verif=["props/side.cc", "shim/shim.cc"]),
    "cost": dict(_CONV, verif=["props/cost.cc", "shim/shim.cc"], repo=_JSON + _CORE, protos=["conv", "google/api/http"]),
    "e2e": dict(_CONV, verif=["props/e2e.cc", "shim/shim.cc"], repo=_JSON + _CORE, protos=["conv", "google/api/http"]),
}

_SAN = "The code under test runs under AddressSanitizer and UndefinedBehaviorSanitizer with libstdc++ assertions; clang 18 at -O1 stands for every compiler and level."
_MODEL = "The reference model (props/model.h) is written from the documentation and the headers' comments, shares no code with /repo, and is trusted."

_SHIM = "The JSON modules are built against shim/: absl-typed stand-ins for the protobuf headers this sandbox lacks, forwarding to the JSON converter of the installed libprotobuf 3.21, which is trusted."

CHECKS = {
    "C01": {
        "run": [("tmpl", "asan")],
        "technique": "property-based testing: bounded-exhaustive and random strings against an independent reference parser",
        "rule": "Strings: all strings up to a fixed length over the grammar's alphabet, mutated and spliced grammar-derived templates, random bytes, and one foreign byte at every position. Non-trivial: more than one byte long (random parts), the exact set of enumerated strings otherwise.",
        "note": "Accept/reject decision compared with an independent recursive-descent reference parser for every string of the enumerated space and for random near-grammar and byte strings; nothing is established beyond those.",
        "assumptions": [_MODEL, _SAN],
    },
    "C02": {
        "run": [("tmpl", "asan")],
        "technique": "property-based testing: print/parse round-trip of generated template ASTs plus differential against a reference parser",
        "rule": "Random template ASTs printed to text and parsed back; all accepted strings of the enumerated small strings. Non-trivial: has a variable, a verb or more than two segments.",
        "note": "Segments, verb and variable ranges of the parsed object compared with the generated AST and with the reference parser's result.",
        "assumptions": [_MODEL, _SAN],
    },
    "C03": {
        "run": [("route", "asan")],
        "technique": "property-based testing: differential against a flat reference matcher, with bounded-exhaustive template pairs",
        "rule": "Random sets of overlapping templates (dense and wide alphabets) with paths derived from them by filling, mutation and noise; all pairs of a small template space against all short paths. Non-trivial: some template matches, or a near miss of one.",
        "note": "Lookup's found/not-found and the validity of the method found are compared with a model that tries each registered template on its own.",
        "assumptions": [_MODEL, _SAN],
    },
    "C04": {
        "run": [("route", "asan")],
        "technique": "property-based testing: reference ranking plus registration-order permutation (metamorphic), bounded-exhaustive template pairs",
        "rule": "As C03, with at least two candidate templates aimed for, and each configuration also registered in another order. Non-trivial: two or more templates match the request.",
        "note": "The method returned is compared with the reference ranking and with the result of the same registrations in another order.",
        "assumptions": [_MODEL, _SAN],
    },
    "C05": {
        "run": [("bind", "asan")],
        "technique": "property-based testing: reference model of variable bindings; encode/lookup round-trip",
        "rule": "Random templates with variables before, over and after '**', paths with percent escapes of every kind, all three unescape modes. Non-trivial: the matched template has a variable.",
        "note": "Field paths, order and values of the path bindings compared with the model.",
        "assumptions": [_MODEL, _SAN],
    },
    "C06": {
        "run": [("bind", "asan")],
        "technique": "exhaustive enumeration of escapes plus property-based testing against a reference decoder and an encode/decode round-trip",
        "rule": "All 65536 two-byte combinations after '%' in all modes; random percent-heavy strings; encoded random bytes; the same through Lookup. Non-trivial: the string contains a well-formed escape or is changed by decoding.",
        "note": "Decoder output compared byte for byte with an independent decoder; every escape is enumerated completely.",
        "assumptions": [_MODEL, _SAN],
    },
    "C07": {
        "run": [("bind", "asan")],
        "technique": "property-based testing: reference model of query bindings",
        "rule": "Random query strings of well-formed, empty, valueless and malformed parameters, system parameters included. Non-trivial: at least one binding or one parameter dropped.",
        "note": "Order, field paths and values of the query bindings, and their position after the path bindings, compared with the model.",
        "assumptions": [_MODEL, _SAN],
    },
    "C08": {
        "run": [("route", "asan")],
        "technique": "property-based testing: differential against a flat reference matcher with verb-heavy configurations",
        "rule": "Random configurations in which most templates carry verbs, methods and verbs that collide when concatenated, wildcard methods, both settings for unregistered verbs. Non-trivial: the path's last segment has a ':' or a verb-carrying template is matched.",
        "note": "Result compared with a model that treats method and verb as two independent strings.",
        "assumptions": [_MODEL, _SAN],
    },
    "C09": {
        "run": [("hist", "asan")],
        "technique": "model-based testing of registration histories",
        "rule": "Random histories of Register calls (valid, invalid, duplicate, with and without fail-on-duplicate) followed by lookups; each compared with the model and with the history without its invalid calls. Non-trivial: at least one duplicate or invalid registration.",
        "note": "Return value of each Register and the result of each later Lookup compared with the model.",
        "assumptions": [_MODEL, _SAN],
    },
    "C10": {
        "run": [("rule", "asan")],
        "technique": "property-based testing: differential between one HttpRule registration and separate Register calls",
        "rule": "Random google.api.HttpRule messages with every pattern kind and additional bindings, compared with the same bindings registered one by one. Non-trivial: the rule has additional bindings or a custom pattern.",
        "note": "Return value and the answers to lookups compared between the two ways of registering.",
        "assumptions": [_SAN, "google/api/http.proto as copied into third_party (from proto-google-common-protos) is the schema."],
    },
    "C11": {
        "run": [("hist", "asan"), ("threads", "tsan")],
        "scale": 1.3,
        "technique": "property-based testing: repeated and reordered lookups against a model; concurrent lookups under ThreadSanitizer",
        "rule": "Random matchers and request sequences with repetitions and dirty output arguments; the same from four threads at once under ThreadSanitizer. Non-trivial: at least one request matches.",
        "note": "Each answer compared with the model's answer for that request alone; data races are those ThreadSanitizer's happens-before analysis sees in the executed schedules.",
        "assumptions": [_MODEL, _SAN, "Thread schedules are those of the OS; ThreadSanitizer detects conflicting unsynchronised accesses in them even if they do not collide in time."],
    },
    "C12": {
        "run": [("reader", "asan")],
        "scale": 1.2,
        "technique": "model-based testing of framing with generated arrival and polling schedules; bounded-exhaustive small streams",
        "rule": "Random streams of frames (0 bytes to 4 GiB-1) cut into arbitrary buffers and arriving by a random schedule; all short streams with every cut, buffer size and arrival step. Non-trivial: at least one message is delivered.",
        "note": "The messages delivered are compared with the frames of the generated stream, for the generated schedules.",
        "assumptions": [_SAN, "The input stream honours the TranscoderInputStream contract (BytesAvailable is never more than can be read)."],
    },
    "C13": {
        "run": [("reader", "asan")],
        "technique": "fault injection with generated frame streams (bad flags, truncation) against a model",
        "rule": "Random streams with one non-zero flag byte or cut off at any byte, arriving by random schedules; valid streams for the absence of errors; all truncation points of short streams. Non-trivial: a fault is present or a message is delivered.",
        "note": "Status, Finished and the messages before the fault compared with the model.",
        "assumptions": [_SAN, "The input stream honours the TranscoderInputStream contract."],
    },
    "C14": {
        "run": [("reader", "asan")],
        "technique": "model-based testing with a monitoring input stream (position invariant over the history)",
        "rule": "Random streams, schedules, polls and ways of reading each message (Next, BackUp, Skip); the stream records its position and misuse. Non-trivial: at least one message is delivered.",
        "note": "Position of the underlying stream checked after every poll and message; ZeroCopyInputStream misuse is monitored.",
        "assumptions": [_SAN, "The input stream honours the TranscoderInputStream contract."],
    },
    "C15": {
        "run": [("mstream", "asan")],
        "scale": 20,
        "technique": "model-based testing of call histories; bounded-exhaustive small scripts",
        "rule": "Random histories of Next, BackUp, BytesAvailable, Finished and Skip over a scripted message source; all short scripts. Non-trivial: more than one message is involved.",
        "note": "Bytes read, return values and BytesAvailable compared with a byte-string model.",
        "assumptions": [_SAN],
    },
    "C16": {
        "run": [("robust", "work")],
        "scale": 4,
        "technique": "fuzzing with sanitizers and an executed-edge bound per lookup",
        "rule": "Random and mutated byte strings at every entry point, long inputs, and adversarial overlapping templates with paths built to backtrack. Non-trivial: non-empty input that reaches the code (a registered template, an escape, a frame byte).",
        "note": "No sanitizer report, assertion, 60 s of CPU time or cost above 2000*(template segments)*(path segments) edges on any generated input.",
        "assumptions": [_SAN, "Templates have at most about a thousand segments (registration and lookup recurse once per template segment)."],
    },
    "C17": {
        "run": [("resp", "asan")],
        "technique": "property-based testing: differential per message, JSON array/line grammar and round-trip over generated message sequences",
        "rule": "Random sequences of random messages (every field kind, maps, oneofs, well-known types, Any), streaming modes and print options, the output read with one reused string. Non-trivial: every case.",
        "note": "Each text compared with the library's JSON of the same bytes, the whole with the array or line grammar, and every element converted back; no claim beyond the generated messages.",
        "assumptions": [_SAN, _SHIM],
    },
    "C18": {
        "run": [("resp", "asan")],
        "technique": "model-based testing with generated arrival schedules and injected faults",
        "rule": "As C17, cut into arbitrary buffers arriving by a random schedule, with a bad flag, a truncation or a damaged message body. Non-trivial: every case.",
        "note": "Each poll's result compared with a model of what must be available and of the fault; undecodable means what the installed converter rejects for every block size tried.",
        "assumptions": [_SAN, _SHIM],
    },
    "C19": {
        "run": [("weave", "asan"), ("req", "asan")],
        "technique": "property-based testing: generated bodies and bindings against a reflection-based model of the resulting message; event streams against a tree model",
        "rule": "Random bodies (every field kind, random JSON spellings) with up to 8 bindings of distinct, shared, repeated and map-entry paths, unary and streaming, under random chunking; random event sequences straight into the weaver. Non-trivial: at least one binding.",
        "note": "The message produced is compared with the body's message into which the bound values were written by reflection; nothing beyond the generated requests.",
        "assumptions": [_SAN, _SHIM],
    },
    "C20": {
        "run": [("weave", "asan"), ("req", "asan")],
        "technique": "property-based testing: pairs of equal and different values of every scalar type, in requests and as events",
        "rule": "Random pairs of a body value and a binding text over each type's whole range, at several depths, with rejection on and off. Non-trivial: every case.",
        "note": "Accept or reject compared with an exact comparison in the type of the body's value; doubles closer than 1e-4 or 0.1 percent are not judged.",
        "assumptions": [_SAN, _SHIM],
    },
    "C21": {
        "run": [("weave", "asan"), ("req", "asan")],
        "technique": "property-based testing: generated bodies at generated paths against a reflection-based model; event streams against the documented sequence",
        "rule": "Random body paths of one to three fields ending in every field kind, with bodies that fit, unary and streaming; random event sequences straight into the prefix writer. Non-trivial: at least one element.",
        "note": "The message produced is compared with one whose field at the path is the body; the events with the sequence the header documents.",
        "assumptions": [_SAN, _SHIM],
    },
    "C22": {
        "run": [("types", "tsan"), ("types", "asan")],
        "technique": "property-based testing: generated type graphs and paths against a reference resolver; overlapping calls of the shared type information detected while several threads resolve",
        "rule": "Random type graphs (cycles, JSON names, unresolvable types) with paths that resolve, nearly resolve or do not. Non-trivial: a path of at least one name.",
        "note": "Result and status compared with a model that walks the declared types.",
        "assumptions": [_SAN, _SHIM],
    },
    "C23": {
        "run": [("req", "asan")],
        "technique": "property-based testing: print/translate/parse round-trip through an independent JSON printer, with generated chunking and injected faults",
        "rule": "Random messages printed as JSON in random spellings (names, escapes, quoting, spaces, order, nulls, unknown fields), unary and as streams, with every option, under random chunking; truncated, mistyped and malformed texts. Non-trivial: every case.",
        "note": "The messages that come out are compared with the ones printed; for faulty texts an error status and a prefix of the good messages are required.",
        "assumptions": [_SAN, _SHIM],
    },
    "C24": {
        "run": [("e2e", "asan")],
        "technique": "property-based testing: generated rules and requests through all modules together against a reflection-based model, and back",
        "rule": "Random HttpRules among other rules, requests whose bindings are spread over path and query in random spellings and escapings, random bodies, unary and streaming, under random arrival schedules; the messages then go through the response translator. Non-trivial: at least one binding.",
        "note": "The messages that come out are compared with the body's message into which the values were written by reflection, the texts that come back with the library's JSON of those messages.",
        "assumptions": [_SAN, _SHIM],
    },
    "C25": {
        "run": [("side", "tsan"), ("side", "asan")],
        "scale": 1,
        "technique": "property-based testing: translations run alone, interleaved step by step and in several threads must give the same history (metamorphic)",
        "rule": "Random plans (request translator as messages or as bytes, response translator, message reader; valid and damaged input; arrival schedules) run alone, with their steps mixed at random, and from four threads at once with one TypeHelper. Non-trivial: at least two translations.",
        "note": "The whole history of each translation (messages, statuses, Finished) compared with the same plan run alone; the threads' histories likewise, under AddressSanitizer and ThreadSanitizer (which does not see inside the installed libraries).",
        "assumptions": [_SAN, _SHIM, "Thread schedules are those of the OS."],
    },
    "C26": {
        "run": [("events", "asan")],
        "technique": "property-based testing: generated messages described by object-writer events against the message itself; model of when messages come out",
        "rule": "Random messages described by events with randomly chosen rendering functions, for one message and for streams, whole or at a body path, with bindings; streams that are not a list or have elements of the wrong kind. Non-trivial: every case.",
        "note": "The message that comes out is compared with the one described, the moment it comes out with the completion of its element; for wrong events an error status and only good messages.",
        "assumptions": [_SAN, _SHIM],
    },
    "C27": {
        "run": [("node", "asan")],
        "technique": "stateful model-based testing of the path tree and its clones",
        "rule": "Random histories of insertions (with and without marking duplicates), clones, destruction and lookups over a family of trees. Non-trivial: a clone or a repeated insertion occurs and some lookup finds a registration.",
        "note": "Every return value of InsertPath and every result of LookupPath, in every tree of the family, compared with a flat model of that tree's own insertions.",
        "assumptions": [_MODEL, _SAN],
    },
    "C28": {
        "run": [("demand", "asan")],
        "technique": "model-based testing with counting input streams (what each call reads, and when)",
        "rule": "Random requests in chunks, framed responses and message streams with random arrivals and polls. Non-trivial: more than one chunk (requests), any message (responses, byte streams).",
        "note": "After every call the amount read from the source is compared with the least amount that the model says is needed, and whether a message comes out with whether it is complete.",
        "assumptions": [_SAN, _SHIM],
    },
    "C29": {
        "run": [("errors", "asan")],
        "technique": "fault-injecting property-based testing: requests, responses and field paths with a known fault, checked for blame, culprit and permanence",
        "rule": "Random valid requests and responses with one fault put into a random place (bad value, bad token, conflicting or unconvertible binding, wrong kind of value, cut off; bad flag, undecodable body, value without JSON form, cut-off frame), and field paths with one wrong name; random chunks and polls. All cases are non-trivial.",
        "note": "The status code, the culprit's name in conflict and path errors, the number of messages before the error, and that status, Finished() and silence are permanent and read nothing more.",
        "assumptions": [_SAN, _SHIM],
    },
    "C30": {
        "run": [("cost", "cost")],
        "technique": "property-based testing with resource metering: long generated histories compared early against late, and sizes n against 4n (metamorphic)",
        "rule": "Endless streams of a few random messages in random pieces and arrivals, endless numbered lookups and resolutions, sixteen kinds of data at two sizes, and random runs of all objects that are dropped half-way. Non-trivial: every completed case.",
        "note": "Live bytes, peak, allocated and moved bytes and executed edges of 200 calls early are compared with those of 200 calls thousands later (1.5 times plus a constant), of 4n data with those of n (7 times plus a constant); live bytes after repeated runs must not grow.",
        "assumptions": ["operator new, memcpy and memmove are counted by replacing them in the process; memory obtained in other ways is not seen.", _SHIM],
    },
}

NOT_CLAIMED = {}
