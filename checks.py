"""Which harness sources and which parts of the library each check is built from."""
CHECKS = {
    "W10": {
        "sources": ["w10.cpp", "model.cpp"], "groups": ["core"],
        "technique": "property-based testing: generated types, objects and property sets; encode/decode round trip against an independent value model, byte accounting, ASan/UBSan",
        "note": "Random search with shrinking over static and run-time defined types, nesting depth up to 3, values biased to boundaries; NaN payloads only as values, no proof of absence.",
    },
    "W11": {
        "sources": ["w11.cpp", "model.cpp"], "groups": ["core"],
        "technique": "property-based testing: differential against a CBOR encoder/decoder written from RFC 8949, metamorphic (order, widths, unknown properties, type versions)",
        "note": "Random search with shrinking; indefinite lengths only inside unknown properties.",
    },
    "W13": {
        "sources": ["w13.cpp", "model.cpp"], "groups": ["core"],
        "technique": "property-based testing: round trip over styles and policies against a value model; differential against a JSON parser and a free-form JSON writer written from RFC 8259",
        "note": "Random search with shrinking; finite numbers and UTF-8 text for JSON; ISO times to the millisecond.",
    },
    "T19": {
        "sources": ["t19.cpp"], "groups": ["tools"],
        "technique": "property-based testing: round trip and differential against calendar arithmetic and grammars written independently; mutated texts must be rejected",
        "note": "Random search with shrinking; years 1 to 9999.",
    },
    "W12": {
        "sources": ["w12.cpp", "model.cpp"], "groups": ["core"],
        "technique": "property-based testing and structure-aware fuzzing: mutated, truncated, mismatched, deeply nested and random inputs for every format; no-harm oracle (ASan, UBSan, memory accounting, timeouts), rejection oracle, usability oracle",
        "note": "Random search with shrinking; bit damage that yields another valid encoding is undetectable by design and not reported.",
    },
    "C01": {
        "sources": ["c01.cpp", "model.cpp"], "groups": ["core", "cache"],
        "technique": "stateful property-based testing: generated histories of create, update and remove messages on several types against a reference fold",
        "note": "Random search with shrinking; up to 40 messages per history, up to 6 keys per type.",
    },
    "C02": {
        "sources": ["c02.cpp", "model.cpp"], "groups": ["core", "cache"],
        "technique": "stateful property-based testing: generated histories of messages, subscriptions and handler actions (subscribe, cancel, publish, fail) against a delivery ledger",
        "note": "Random search with shrinking; up to 60 messages and 14 handlers per history.",
    },
    "C03": {
        "sources": ["c03.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories and delivery orders of host and guests on a simulated network against a reference model of the broker",
        "note": "Random search with shrinking; up to 3 guests, 3 types and about 50 operations per history.",
    },
    "C04": {
        "sources": ["c04.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories and delivery orders of host and guests on a simulated network, with late and returning guests, against a reference model of the broker",
        "note": "Random search with shrinking; up to 5 guests, 3 types and about 50 operations per history.",
    },
    "C05": {
        "sources": ["c05.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories and delivery orders of host and guests on a simulated network, with connections that end at any point (leaving, cut with loss, errors, offences, failing transmissions, a dying host), against a reference model of the broker",
        "note": "Random search with shrinking; up to 4 guests, 3 types and about 50 operations per history.",
    },
    "C08": {
        "sources": ["c08.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories and delivery orders of host and guests on a simulated network, with publications by guests and host with arbitrary property selections, against a reference model of the broker",
        "note": "Random search with shrinking; up to 2 guests and 30 operations per history.",
    },
    "C09": {
        "sources": ["c09.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories and delivery orders of host and guests on a simulated network, with service requests (descriptions, echo, clear, leave) mixed with normal traffic, against a reference model of the broker",
        "note": "Random search with shrinking; up to 3 guests and 40 operations per history.",
    },
    "C06": {
        "sources": ["c06.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: protocol peers that send arbitrary message sequences (also to guests), with and without required authentication, against a reference model of the handshake and the broker, proofs recomputed with an independent SHA-256",
        "note": "Random search with shrinking; up to 3 raw peers, 2 guests and 50 operations per history.",
    },
    "C07": {
        "sources": ["c07.cpp", "model.cpp"], "groups": ["core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: generated histories of authentication rules and policies against a reference decision procedure with own prefix arithmetic and SHA-256, by direct queries and by guests connecting to a host",
        "note": "Random search with shrinking; up to 25 operations per history.",
    },
    "E27": {
        "sources": ["e27.cpp", "model.cpp"], "groups": ["core", "io", "cache", "tools", "stream", "ws"],
        "technique": "stateful property-based testing over real sockets: generated histories of misbehaving clients (resets, silence, garbage, damaged and semantically odd messages) mixed with guests that follow the protocol, against the guests' own messages",
        "note": "Random search with shrinking; up to 12 misbehaving clients and 6 guests per case on the loopback network.",
    },
    "W14": {
        "sources": ["w14.cpp", "model.cpp"], "groups": ["core", "io", "tools", "stream", "ws"],
        "technique": "stateful property-based testing: generated message sequences in both directions over a simulated byte stream whose reads, writes, splits, breaks and damages are generated, against the sent sequence",
        "note": "Random search with shrinking; up to 60 messages per case, messages up to 300 KB (1.6 MB for stalled receivers).",
    },
    "W15": {
        "sources": ["w15.cpp", "model.cpp"], "groups": ["core", "io"],
        "technique": "stateful property-based testing: generated type families are described, rebuilt and used, and sent between two endpoints with different knowledge, against a model of who knows what",
        "note": "Random search with shrinking; families of up to 4 structs of up to 31 properties nested up to 3 levels.",
    },
    "T16": {
        "sources": ["t16.cpp", "model.cpp"], "groups": ["core"],
        "technique": "stateful model-based property-based testing: generated histories of object operations on generated and run-time defined types, held in four ways, against maps of properties; algebraic laws over generated object families; leak check by replay",
        "note": "Random search with shrinking; histories of up to 32 operations on 2 to 4 objects of types nested up to 3 levels.",
    },
    "T17": {
        "sources": ["t17.cpp", "model.cpp"], "groups": ["core"],
        "technique": "model-based property-based testing: set algebra against sets of integers; all iteration variants, walks to and fro and lookups by name, tag and dotted path over generated types against the declared order and a tree of values",
        "note": "Random search with shrinking; types of up to 31 properties nested up to 4 levels.",
    },
    "T18": {
        "sources": ["t18.cpp", "model.cpp"], "groups": ["core", "cache"],
        "technique": "model-based property-based testing: histories of registering, deregistering and looking up families of generated types, of pools of caches and of maps of descriptors, against sets of names",
        "note": "Random search with shrinking.",
    },
    "U21": {
        "sources": ["u21.cpp"], "groups": ["core", "tools", "io"],
        "technique": "property-based testing: addresses assembled from generated parts and changed step by step against the parts (model-based, with a round trip through the text); networks in generated notations against a comparison of bits; malformed text",
        "note": "Random search with shrinking.",
    },
    "X22": {
        "sources": ["x22.cpp", "model.cpp"], "groups": ["app", "core", "cache", "io", "tools"],
        "technique": "stateful property-based testing: histories of creating, moving, discarding and releasing timers, descriptor watches and subscriptions, also from inside of their handlers, on a real event loop, with every call checked against the state of the handle",
        "note": "Random search with shrinking; real time in steps of 1 ms, nothing depends on how fast handlers are called.",
    },
    "A28": {
        "sources": ["a28.cpp"], "groups": ["app", "core", "io", "cache", "tools", "stream", "ws"],
        "technique": "stateful property-based testing over processes: generated programs (arguments, environment, names, secrets, endings, repeated use) run as guests of a host in the checking process or as hosts of guests there, against a model of what they were told",
        "note": "Random search with shrinking; up to 3 applications one after the other per program; loopback network and local sockets in a scratch directory.",
    },
    "D29": {
        "sources": ["d29.cpp"], "program": "dotsd", "groups": ["app", "core", "io", "cache", "tools", "stream", "ws"],
        "technique": "stateful property-based testing of the running daemon: generated histories of guests and strangers connecting, publishing and leaving in all ways, against a model of clients, objects and their authors; the daemon's clock and timers are sped up",
        "note": "Random search with shrinking; up to 4 guests and some 15 steps per daemon; loopback network and local sockets in a scratch directory. The daemon's clock runs 200 times faster by interposed clock_gettime and timerfd_settime.",
    },
    "X26": {
        "script": "tools/x26.py",
        "technique": "property-based testing of the code generator: generated models are translated and compiled (clang++ and g++ in turn), the resulting types compared with what the model declares, and objects of them compared differentially with objects of run-time types of the same model; failing models are reduced",
        "note": "Random search with shrinking; 8 models per seed in the quick tier and 96 in the thorough one.",
    },
}
