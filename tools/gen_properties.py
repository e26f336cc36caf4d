#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the listed properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

L = "lib/include/dots/"; S = "lib/src/"

prop("C01", "A cache is the exact fold of the updates it received",
 "After any sequence of create, update and remove messages for a cached type, the cache holds exactly one object for every key that was published and not removed since. Each object has, for every property, the value most recently transmitted for it, keeps properties that an update did not transmit, and no longer has properties that an update listed as transmitted but carried without a value. The accompanying record names the last operation, its sender and time, and who created the object and when; every insertion or removal reports the operation that really took place together with the resulting object.",
 ["histories", "inputs"], "all sequences of create/update/remove messages, with any keys, any valid and transmitted property subsets, any senders and times, for generated and run-time defined types with one or several keys of any key type",
 "TestContainer drives a handful of hand-written messages over one generated type with a single integer key; the claim quantifies over all message histories and all property subsets.",
 [L+"Container.h", S+"Container.cpp", L+"type/StructDescriptor.h"],
 [("insertion/merge of an instance", "Container<>::insert"), ("removal", "Container<>::remove"), ("key order", "Container<>::key_compare")],
 [("container", "ordered map from key to instance and clone information")], "Container API: size, find, iteration, clone information, returned node/operation")

prop("C02", "Every subscriber gets every message exactly once, in order, correctly labelled",
 "For any history of subscriptions, cancellations and incoming messages, each handler is called exactly once, in arrival order, for each message of its type that arrives while it is subscribed, and never after its cancellation, also when handlers subscribe or cancel while a message is being delivered. A message that a handler sends is delivered after the message being delivered has reached every handler. Each event names the operation (create, update or remove), carries the received and the up-to-date object and the sets of new and changed properties, and a handler that subscribes to a cached type is first called once for each object already cached, with a countdown to the last one. A handler that throws is reported to the error handler and affects neither the cache nor any other handler.",
 ["histories", "inputs"], "all interleavings of subscribe, cancel (also from inside handlers), deliver and throw, for cached and uncached types and for plain, event and new-type handlers",
 "TestDispatcher checks single hand-written sequences; the guarantee ranges over all histories including re-entrant subscription changes and failing handlers.",
 [L+"Dispatcher.h", S+"Dispatcher.cpp", L+"Event.h", S+"Event.cpp", L+"Transceiver.h"],
 [("dispatch to handlers", "Dispatcher::dispatch"), ("replay of cache on subscription", "Dispatcher::addEventHandler"), ("deferred cancellation", "Dispatcher::removeHandler")],
 [("handler pools", "per-type maps from handler id to handler")], "calls of registered handlers and their event arguments")

prop("C03", "All subscribed participants converge to the host's cache",
 "Whatever guests publish, update and remove, each message that a connected participant publishes is delivered by the host exactly once to every participant subscribed to that type, the publisher included, in one common order, with the publisher's identity and with a marker on exactly the publisher's own copy. When no message is in flight, the cache of every participant subscribed to a cached type equals the host's cache for this type, object by object and property by property. Participants never receive objects of types they did not subscribe to.",
 ["histories", "schedules", "configurations"], "all histories of publish/update/remove, subscribe and unsubscribe by any number of guests over in-process and socket connections, and all orders in which their message queues are drained",
 "Existing transceiver tests script one guest with fixed message sequences and a mocked channel; convergence over many participants and arbitrary interleavings is never exercised.",
 [S+"HostTransceiver.cpp", S+"GuestTransceiver.cpp", S+"Connection.cpp", S+"io/Channel.cpp", S+"io/channels/LocalChannel.cpp"],
 [("distribution to group members", "HostTransceiver::transmit/publish"), ("guest side dispatch", "GuestTransceiver::handleTransmission"), ("sender stamping", "Connection::handleTransmission")],
 [("groups", "per-type set of subscribed connections"), ("container pools", "cached objects at host and guests")], "event handlers and containers of host and guests")

prop("C04", "A late subscriber receives a complete, consistent snapshot",
 "A participant that subscribes to a cached type at any time receives every object the host holds at that moment exactly once, in the snapshot counting down to zero and followed by an end-of-transmission notice for the type, and afterwards every later change exactly once. The snapshot contains the full current value of each object and who created and last changed it is reported as the object's sender, so that a guest that joins late ends with the same objects as one that was there from the beginning. With preload, a guest's connection is reported as established only after the snapshots for all early subscriptions have been delivered.",
 ["histories", "schedules"], "all histories before, during and after the subscription and all join times, with and without preload, for any number of cached objects including none",
 "Tests use fixed caches of one or two objects and a mocked peer; the claim quantifies over all histories preceding the join and all join times.",
 [S+"HostTransceiver.cpp", S+"Connection.cpp", S+"GuestTransceiver.cpp", S+"Dispatcher.cpp"],
 [("snapshot", "HostTransceiver::transmitContainer"), ("join", "HostTransceiver::handleMemberMessage"), ("preload", "Connection state machine")],
 None, "raw transmissions received on a channel of the subscribing guest, and its container")

prop("C05", "Disconnecting removes exactly the client's cleanup objects and subscriptions",
 "When a client's connection ends in any way and at any point of a history, the host removes from its cache exactly those objects of auto-cleanup types that this client was the last to publish or update, and tells every remaining subscriber of these types about each removal once. Objects of other types or last changed by others stay untouched, the client receives nothing more, and the other participants' subscriptions and connections continue to work - also while handlers of the host react to the removals by publishing or removing objects themselves. The ended connection is reported once as closed and its identity is not given to another simultaneously connected client.",
 ["histories", "fault_sequences", "crash_points"], "all histories of publications by several clients and all points at which one of them disconnects, is cut off, or sends an offending message",
 "TestHostTransceiver covers one scripted disconnect; the claim ranges over all histories, ownership changes and cut points.",
 [S+"HostTransceiver.cpp", S+"Connection.cpp"],
 [("connection teardown", "HostTransceiver::handleTransitionImpl / handleTransition"), ("cleanup", "HostTransceiver cleanup of StructDescriptor::Cleanup types")],
 None, "host container, transition handler calls, transmissions observed by other guests")

prop("C06", "Only clients that completed the handshake can take part",
 "A host accepts application messages from a connection only after a connection request it admitted; before that, or on any message that is invalid in the current handshake state, or when required authentication fails, it publishes and caches nothing from that connection, reveals no cached object to it, and closes it. A host and a guest that both follow the protocol always reach the established state, with or without preload and with or without authentication, passing through the documented states in order. Messages from an established peer are always attributed to the identity the host assigned to that peer, whatever sender the message itself names, and objects lacking their key are refused.",
 ["histories", "inputs", "fault_sequences"], "all sequences of handshake, control and application messages, in any order, with any contents, from a conforming or arbitrary peer in any state",
 "TestConnection checks selected valid and invalid steps one by one; the guarantee is about every message sequence.",
 [S+"Connection.cpp", L+"Connection.h", S+"HostTransceiver.cpp", S+"io/Channel.cpp"],
 [("state machine", "Connection::handle* / setConnectionState"), ("gating", "Connection::handleReceive"), ("sender override", "Connection::handleReceive")],
 [("connection state", "connecting, early_subscribe, connected, suspended, closed")], "transition handler calls, messages the host emits, host container")

prop("C07", "Admission follows the configured authentication rules",
 "Whether a client is admitted depends only on the configured rules, the client's address and name and the secret it proves: among the rules that apply to it, the one with the smallest priority number decides, a rule with a secret applies only to clients proving that secret, and if no rule applies the default policy (accept if none is configured) decides. Rules of equal priority may decide in any order. Clients connecting through a local socket are always admitted. Rules that are added, changed or removed take effect for all later decisions. A proof is accepted only if it was computed from the same secret, client name, host challenge and client nonce, and all identical inputs give the identical proof.",
 ["configurations", "inputs", "histories"], "all rule sets (networks, client names, priorities, secrets, decisions), policies, histories of rule changes, client addresses, names and responses",
 "TestLegacyAuthManager checks a few fixed rule sets, and TestDigest needs a library that is absent from this build; the claim covers all configurations.",
 [S+"io/auth/LegacyAuthManager.cpp", S+"io/auth/Digest.cpp", S+"tools/IpNetwork.cpp", L+"io/auth/LegacyAuthManager.h"],
 [("rule evaluation", "LegacyAuthManager::verifyAuthentication"), ("proof", "Digest")],
 [("rules", "published DotsAuthentication objects"), ("policy", "published DotsAuthenticationPolicy object")], "results of the authentication manager's queries")

prop("C08", "Exactly the requested publication leaves a participant",
 "Publishing an object transmits one message carrying exactly the requested properties plus all key properties, where requested properties without a value are announced as unset, and nothing else of the object; removal transmits the keys and a remove marker. Requests to publish objects without all keys, or of types that may only occur inside others, are rejected with an error and have no effect anywhere. Publishing as host and publishing as guest have the same effect on every subscriber.",
 ["inputs", "histories"], "all types, objects, requested property sets and remove flags, as host or guest",
 "Tests publish a few fixed objects with fixed property sets through mocks.",
 [S+"HostTransceiver.cpp", S+"GuestTransceiver.cpp", S+"Transceiver.cpp", S+"io/channels/LocalChannel.cpp"],
 [("publish", "HostTransceiver::publish, GuestTransceiver::publish"), ("remove", "Transceiver::remove")], None, "transmissions seen by subscribers and raw channel messages")

prop("C09", "The host answers every service request completely and precisely",
 "For any connected client, a request for type descriptions is answered with the descriptions of exactly the known application types matching the given allow and deny lists, each preceded by everything it depends on, and one end notice; an echo request is answered to the requester alone with the same data; a request to clear caches removes every object of exactly the named types and informs their subscribers, also while handlers of the host react to these removals by removing objects themselves; leaving a type's group ends delivery of this type to that client alone. No such request disturbs other clients, other types or the requester's connection.",
 ["histories", "inputs"], "all contents and interleavings of service requests with ordinary traffic from several clients",
 "TestHostTransceiver checks one example of each request.",
 [S+"HostTransceiver.cpp"],
 [("descriptor request", "HostTransceiver::handleDescriptorRequest"), ("clear cache", "HostTransceiver::handleClearCache"), ("echo", "HostTransceiver::handleEchoRequest"), ("member", "HostTransceiver::handleMemberMessage")], None, "raw transmissions received by each client, host container")

prop("W10", "Binary encoding round-trips every object",
 "Encoding any object, or any selected subset of its properties, in the binary wire format and decoding it yields an object with exactly the selected valid properties and bit-identical values, for generated and run-time defined types alike and for values at any nesting depth. Decoding consumes exactly the bytes encoding produced, so that consecutive objects in one buffer decode one after the other. Decoding into an object that already has values replaces transmitted properties and keeps the others.",
 ["inputs"], "all types built from every property kind (numbers, text, enumerations, times, uuids, property sets, nested structs, vectors of these), all values including extremes, all property subsets",
 "Serializer tests use one fixed example instance; the claim covers all types, values and subsets.",
 [L+"serialization/CborSerializer.h", L+"serialization/formats/CborReader.h", L+"serialization/formats/CborWriter.h", L+"serialization/Serializer.h", L+"serialization/ExperimentalCborSerializer.h"],
 [("encode/decode", "CborSerializer"), ("alternative implementation", "ExperimentalCborSerializer")], None, "serialize/deserialize results")

prop("W11", "Binary format is interoperable with any conforming peer",
 "Every encoded object is a valid CBOR item that maps property tags to values, as a decoder written only from the CBOR standard confirms. Conversely an object encoded by any conforming encoder decodes to the same value regardless of the order of its properties, of the width chosen for numbers and lengths and of additional properties with tags the receiver does not know, whatever well-formed value these carry. Thus peers with older or newer versions of a type can talk to each other.",
 ["inputs", "configurations"], "all values in all their permissible encodings, all property orders, all unknown additional properties of any CBOR type and size, and all pairs of type versions that differ by added properties",
 "The tests decode only what the same code encoded, plus fixed byte strings; unknown properties and alternative encodings are a space tests do not enter.",
 [L+"serialization/formats/CborReader.h", L+"serialization/formats/CborWriter.h", L+"serialization/CborSerializer.h"],
 [("skipping unknown data", "CborReader::skip"), ("heads", "CborReader::read*")], None, "deserialize of independently encoded bytes, independent decode of serialized bytes")

prop("W12", "Malformed input is rejected without harm",
 "Decoding arbitrary bytes or text in any supported format as any type either succeeds or reports an error; it never reads outside the input, corrupts memory, hangs, or exhausts memory out of proportion to the input. A truncated encoding is never taken for a complete one, and a value of a kind or range that its property cannot have is refused. The object being decoded into stays destructible and usable, a serializer that reported an error works on the next input or object like a new one and leaves no part of an object it refused in its output, and a connection that receives malformed data reports an error and closes instead of taking the process down.",
 ["inputs", "fault_sequences"], "all byte strings, in particular all truncations and mutations of valid encodings, for every format and target type",
 "Tests feed well-formed input and a few fixed errors.",
 [L+"serialization/formats/CborReader.h", L+"serialization/formats/TextReader.h", L+"serialization/formats/RapidJsonReader.h", L+"serialization/TextSerializer.h", L+"io/channels/AsyncStreamChannel.h", S+"io/DescriptorConverter.cpp"],
 [("bounds checks", "CborReader, TextReader"), ("error reporting", "Channel::processReceive")], None, "deserialize under address and undefined-behaviour sanitizers")

prop("W13", "Text formats round-trip and agree with standard JSON",
 "Encoding any object of finite numbers and UTF-8 text in a text format (JSON or string notation, in every output style) and decoding it with an input policy that covers the style (Strict the multi-line style, Relaxed every style) yields the same valid properties with equal values, text of any content included, up to the documented resolution of time values (milliseconds where they are written as ISO 8601). A selected but unset property is written as null (`<invalid>` in string notation) and is unset in the object decoded into. JSON output is accepted by an independent standard JSON parser and means the same there, and JSON written by another conforming writer, with any whitespace, escapes and property order, decodes to the same object. Property subsets are respected as in the binary format.",
 ["inputs", "configurations"], "all types, values (extreme numbers, control characters, quotes, non-ASCII text), property subsets, output styles and input policies",
 "Tests use one fixed example instance per format with harmless strings.",
 [L+"serialization/TextSerializer.h", L+"serialization/formats/TextReader.h", L+"serialization/formats/TextWriter.h", L+"serialization/JsonSerializer.h", L+"serialization/StringSerializer.h", L+"serialization/RapidJsonSerializer.h"],
 [("text writer/reader", "TextWriter, TextReader"), ("DOM based JSON", "RapidJsonSerializer")], None, "serialize/deserialize results")

prop("W14", "A byte stream delivers exactly the messages sent, in order",
 "Over a stream connection, in either protocol version, the receiver is handed exactly the sequence of messages that was sent, each with the same header and object, no matter how the bytes are split or merged on the way, how large the messages are or how many are queued. After the peer closes or the stream is damaged, or when a message's announced length disagrees with its content, the receiver reports an error once and delivers nothing more. Announced lengths reserve no memory beyond what was received, and sending to a receiver that does not read fails at a bound instead of queueing without limit. WebSocket connections likewise deliver exactly the selected properties of each message. Connecting reports its outcome exactly once. A broadcast to many connections delivers the same message to each. A message that cannot be encoded is refused as a whole and disturbs none of the others.",
 ["schedules", "inputs", "fault_sequences"], "all message sequences and sizes, all ways the byte stream can be chunked, all cut points, both protocol versions",
 "Channel tests send a few small messages over one loopback connection where chunk boundaries fall as the kernel likes.",
 [L+"io/channels/AsyncStreamChannel.h", S+"io/channels/TcpChannel.cpp", S+"io/channels/UdsChannel.cpp", S+"io/Channel.cpp"],
 [("framing", "AsyncStreamChannel::transmitImpl / asyncRead*"), ("payload cache", "AsyncStreamChannel serialization cache")], None, "bytes written to, and transmissions received from, a socket channel whose peer is the harness")

prop("W15", "Peers that share no code agree on types",
 "Before the first object of an application type is sent over a connection, descriptions of the type and of everything it is built from are sent, each once and dependencies first - again if transmitting them had failed - so that the receiver can decode it without knowing the type beforehand. A type rebuilt from its description has the same name, flags and properties (name, tag, kind, key) as the original, describes itself identically again, and any object of the original type decodes into the rebuilt type with the same values. A description of a type the receiver already knows changes nothing.",
 ["programs", "inputs", "histories"], "all type definitions (flags, tags, keys, enumerations, nested and vector types), orders of first use and objects of those types",
 "Tests exchange two fixed types; the claim quantifies over all models.",
 [S+"io/DescriptorConverter.cpp", S+"io/Channel.cpp", L+"io/DescriptorConverter.h", S+"type/Registry.cpp"],
 [("conversion", "DescriptorConverter"), ("export before first use", "Channel::exportType")],
 None, "descriptor data structures, channel message order, rebuilt registry")

prop("E27", "A host keeps accepting and serving clients whatever single connections do",
 "A host that listens for connections keeps accepting new clients and serving the connected ones no matter what single connections do: ending while they are being established, never completing their handshake, sending anything but the protocol, sending damaged or senseless messages within the protocol, not reading what they are sent, or briefly using up the file descriptors of the process. A client that follows the protocol is always admitted, stays connected, and receives every message of the other clients it subscribed to; nothing a client sends makes the host disconnect or crash another one. Both ends of a connection agree on which endpoint is whose. Guests within the process may come and go at any time, before and after the host. What a connection occupied is released after the client has gone.",
 ["fault_sequences", "histories", "inputs"], "all histories of clients misbehaving in these ways on TCP, local-socket and WebSocket listeners, interleaved with clients that follow the protocol",
 "No test opens a listener; the behaviour depends on what happens between the accept, the handshake and the first messages of connections that fail.",
 [S+"io/Listener.cpp", S+"io/channels/TcpListener.cpp", S+"io/channels/UdsListener.cpp", S+"io/channels/WebSocketListener.cpp", S+"io/channels/WebSocketChannel.cpp", S+"HostTransceiver.cpp", S+"Connection.cpp"],
 [("accepting", "Gen*Listener::asyncAcceptImpl, WebSocketListener::asyncAcceptImpl"), ("message checks", "Connection::handleReceive"), ("distribution", "HostTransceiver::transmit")],
 None, "guests of the library and raw sockets connected to a listening HostTransceiver")

prop("A28", "A program gets connected, runs and ends as it was told",
 "A guest program built on the application class connects to the endpoint its arguments name, else to the one in the environment, else to the documented default, and proves the secret given by option, environment or endpoint (in this order of precedence), whatever characters that has and whatever other arguments there are; a host program serves guests at every endpoint it was given. When construction returns, the program is connected under its name, announced as running, and the caches of the statically used types equal the host's. If no connection can be established - nothing there, no admission, an answer that is none, an exit signal meanwhile - construction fails with an error instead of waiting forever or returning, leaves nothing behind, and the program may construct another application. A constructed application runs until it is told to exit by itself, by a signal or by the end of its connection, returns the code it was told, and then takes its connection down in good order: everything it published before arrives and the host sees an orderly end. All of this holds for any number of applications one after the other in one process, on the global or on a transceiver and event loop of their own.",
 ["configurations", "histories", "fault_sequences"], "all combinations of arguments, environment, endpoints, secrets, transceivers and endings, for any sequence of applications in a process, and all ways in which establishing a connection can fail",
 "No test constructs an application.",
 [S+"Application.cpp", L+"Application.h", S+"dots.cpp", S+"GuestTransceiver.cpp", S+"HostTransceiver.cpp", S+"io/Io.cpp"],
 [("construction", "Application::Application"), ("arguments", "Application::parseGuestTransceiverArgs, parseHostTransceiverArgs"), ("ending", "Application::exec, exit, ~Application"), ("global transceiver", "global_transceiver_create, global_transceiver_destroy")],
 None, "programs run as child processes, against a host or guests in the checking process")

prop("D29", "The daemon tells the truth about its clients and itself, and ends when told to",
 "While the dots daemon runs, each connected guest is published as exactly one client object with its identifier, its name, the state connected and whatever it says about itself. A guest that has gone, in whatever way, is published as closed at once and its object stays as long as any cached object was created or last updated by it; once there is none, its object is removed within a bounded time, and never the object of a connected client or of one of which there are objects. The daemon publishes its own status with its name, the time of its start, and what it caches and uses, and keeps it current. It serves guests on every endpoint that arguments or environment name, under the name it was given, and strangers that say anything or vanish at any time disturb none of that. A termination signal ends it at any time in good order: successfully, with all guests told and nothing it used left in use; if it cannot start as told, it says so by its exit code instead of running differently.",
 ["configurations", "histories", "schedules", "fault_sequences"], "all arguments and environments, all histories of guests that connect, publish, remove, announce themselves, leave or break off, with strangers in between, and all points in time for the end",
 "No test runs the daemon.",
 ["bin/dotsd/src/DotsDaemon.cpp", "bin/dotsd/src/main.cpp", S+"Application.cpp", S+"HostTransceiver.cpp", S+"io/Listener.cpp"],
 [("clients", "DotsDaemon::handleTransition, cleanUpClients"), ("status", "DotsDaemon::updateServerStatus"), ("arguments and exit code", "main")],
 None, "the daemon's program as child process with sped-up clock and timers; guests, an observer and strangers in the checking process")

prop("T16", "Object operations agree with a plain map of properties",
 "Assign, copy, merge, swap, clear, compare, order and difference on objects, each limited to any chosen property set, behave as the same operations on a map from properties to optional values, for generated and run-time defined types alike and however values are nested. Equality is an equivalence, ordering a strict total order consistent with it in which an unset property is smaller than any set one, and two objects differ exactly in the properties reported as differing. Copies are independent: changing or destroying one object never affects another. Single values handled only through their descriptors - constructed, assigned, copied, compared, swapped - behave like values of their C++ type.",
 ["histories", "inputs"], "all operation sequences on objects of all types, all property sets and all values, including moves and self-operations",
 "Type tests apply single operations to fixed instances of a few types.",
 [L+"type/Struct.h", S+"type/StructDescriptor.cpp", L+"type/StaticStruct.h", L+"type/DynamicStruct.h", L+"type/AnyStruct.h", L+"type/Property.h", L+"type/Vector.h"],
 [("struct operations", "StructDescriptor::assign/copy/merge/swap/clear/equal/less/diffProperties"), ("property operations", "Property")], None, "public struct and property operations under sanitizers")

prop("T17", "Property sets, iteration and lookup are mutually consistent",
 "Property sets obey set algebra exactly as sets of tags do. Iterating an object or a pair of objects, forwards or backwards and restricted to any set, visits exactly the selected properties once and in declaration order, and looking a property up by name, tag or dotted path of nested names yields that same property with its current value and the write through it reaches exactly this value. Unknown names, tags and paths and absent values are reported, never invented.",
 ["inputs"], "all property sets, types, objects, restrictions, and all existing and non-existing names, tags and paths",
 "Iterator and path tests use one fixed struct.",
 [L+"type/PropertySet.h", L+"type/PropertyIterator.h", L+"type/PropertyPairIterator.h", L+"type/PropertyContainer.h", L+"type/ProxyProperty.h", S+"type/PropertyPath.cpp"],
 [("set algebra", "PropertySet"), ("iteration", "PropertyIterator"), ("lookup", "PropertyContainer::_get/_find, PropertyPath")], None, "public property access API")

prop("T18", "Type registry and cache pool never lose or duplicate an entry",
 "For any sequence of registering, deregistering and looking up types, the registry contains exactly the types registered and not deregistered, together with everything they are built from, each under its name; it announces each newly known type exactly once and its parts before it, and rejects a second registration where uniqueness is demanded. The pool of caches contains exactly one cache per type it was asked for and not told to drop, found both by type and by name. Lookups of absent entries report absence.",
 ["histories", "programs"], "all operation sequences over arbitrary families of interdependent types",
 "TestRegistry registers two fixed types.",
 [S+"type/Registry.cpp", S+"type/DescriptorMap.cpp", S+"ContainerPool.cpp", L+"ContainerPool.h"],
 [("registration", "Registry::registerType"), ("descriptor map", "DescriptorMap"), ("pool", "ContainerPool")], None, "registry and pool API")

prop("T19", "Times, durations and ids survive conversion to text and back",
 "Converting a time point, duration or uuid to text in any offered notation and back yields the same value up to the resolution of the notation. Parsing accepts exactly the documented notations, in any zone offset and with fractions of up to three digits, giving the instant they denote, and rejects any other text with an error. Arithmetic and conversion between the time representations lose nothing above their resolution.",
 ["inputs"], "all time points, durations and uuids in the supported range, all well-formed and malformed texts",
 "TestChrono checks some dozens of fixed strings.",
 [S+"type/Chrono.cpp", L+"type/Chrono.h", S+"type/Uuid.cpp", L+"type/Uuid.h", L+"type/PosixTime.h"],
 [("timepoint text", "TimePoint::toString/FromString"), ("duration text", "Duration::toString/FromString"), ("uuid text", "Uuid::toString/FromString")], None, "conversion functions")

prop("U21", "Endpoint and network descriptions mean what they say",
 "Taking an endpoint address apart into scheme, user, password, host, port and path (including any query) loses nothing: each part equals what the generic address syntax assigns to it, and the parts together give the same address. Changing one part changes only this part, and a change for which the address has no place is refused and leaves it as it was. A network contains an address exactly if the address's leading bits, as many as the prefix length says, equal the network's, for IPv4 and IPv6. Ill-formed networks and prefixes are rejected with an error.",
 ["inputs", "histories"], "all combinations of present, absent and empty parts, sequences of changes, all IPv4/IPv6 networks, prefixes and addresses, malformed text",
 "TestUri and TestIpNetwork check fixed strings.",
 [S+"tools/Uri.cpp", L+"tools/Uri.h", S+"tools/IpNetwork.cpp", L+"tools/IpNetwork.h"],
 [("parsing", "Uri::parse"), ("setters", "Uri::set*"), ("matching", "IpNetwork::isSubnetOf")], None, "accessors of the parsed values")

prop("X22", "Timers, descriptor watches and subscriptions fire until released, never after",
 "A pending one-shot timer fires exactly once and not before its due time, a periodic one keeps firing on its schedule, and timers with different due times fire in the order of these; a watched file descriptor's handler is called while data is available. Once a timer, watch or subscription has been released - destroyed, reset, replaced by moving another over it, or released from inside its own handler - its handler is never called again, while explicitly discarding the handle keeps it active; moving a handle transfers it without loss. A timer the library keeps by number obeys the same until it is removed by its number. This holds for any order of creation and release, also after the object that issued them has moved or gone.",
 ["histories", "schedules"], "all histories of creating, moving, discarding and releasing handles, also from within handlers, interleaved with running the event loop",
 "There are no tests of timers and watches, and subscription handling is tested only for simple lifetimes.",
 [S+"Timer.cpp", L+"Timer.h", S+"io/FdObserver.cpp", L+"io/FdObserver.h", L+"Subscription.h", S+"Transceiver.cpp", S+"Subscription.cpp"],
 [("timer", "Timer"), ("watch", "io::FdObserver"), ("subscription", "Subscription")], None, "handler calls while the harness runs the event loop")

prop("X26", "Generated code implements the model it was generated from",
 "For any valid model file, the code generator produces C++ that compiles, and the generated types have exactly the names, properties, tags, kinds, key marks, enumerators and flags that the model declares. Objects of generated types behave, compare and encode identically to objects of the same types defined at run time from the same model.",
 ["programs", "inputs"], "all valid models: any combination of flags, property kinds, tags, keys, enumerations, nested structs and vectors, and objects of the generated types",
 "The tests compile a few fixed models only.",
 ["dots-cg-cpp/src/struct.dots.h.dotsT", "dots-cg-cpp/src/enum.dots.h.dotsT", "dots-cg-cpp/src/config_cpp.py", L+"type/StaticStruct.h"],
 [("struct template", "struct.dots.h.dotsT"), ("enum template", "enum.dots.h.dotsT"), ("type mapping", "config_cpp.py")], None, "descriptors and encodings of compiled generated types")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, sch)
print(len(P), "properties")
