"""Source of /verif/properties.jsonl: run `python3 tools/gen_properties.py` after editing."""
import json, os

P = []
def where(f): return f if f.startswith("web-packages/") else "streamtasks/" + f
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
  P.append({
    "id": id, "title": title, "statement": statement,
    "quantifier": {"over": over, "text": qtext},
    "why_tests_cant": why,
    "anchors": {
      "files": [where(f) for f in files],
      "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
      "mechanism": [{"name": n, "where": where(w)} for n, w in mech],
      "observe_at": list(observe),
      "hook_needed": hook,
    },
  })

# ---------------------------------------------------------------- network core
prop("N01", "Topic data reaches exactly the subscribers, once, in order",
  "In a tree-shaped network of switches and clients, a data message a client sends on a topic it provides is delivered exactly once to every other client whose subscription to that topic was settled before and remains, and never to a client without a subscription. While subscriptions do not change, the same holds for control messages. Each subscriber sees one sender's messages on a topic in the order they were sent and with unchanged content, whatever link kinds (plain or serialising), link delays and unrelated traffic lie on the path.",
  ["inputs", "histories", "schedules", "configurations"], "all tree topologies of switches and clients, all histories of subscribe/unsubscribe/provide/withdraw/send, all per-link delays",
  "the tests use one switch with two links and a fixed sequence of a few messages",
  ["net/__init__.py", "client/__init__.py", "client/receiver.py"],
  [("Switch.on_stream_message / on_in_topics_changed", "net/__init__.py:Switch"), ("Client._task_receive topic filter", "client/__init__.py:Client")],
  ["messages received by TopicsReceiver of each client"])
prop("N02", "A provider is asked for a topic exactly while somebody subscribes to it",
  "Once a tree-shaped network has settled, a client that is the only provider of a topic has been told the topic is wanted if and only if at least one other client currently subscribes to it. Subscribing, unsubscribing, registering and withdrawing providers, closing the connection of a subscriber, and attaching new parts of the network in any order all keep this true.",
  ["histories", "schedules", "fault_sequences"], "all histories of subscribe, unsubscribe, provide, withdraw, attach and link closure on all tree topologies",
  "tests cover one subscribe/unsubscribe of two links and never close a subscribing link",
  ["net/__init__.py", "client/topic.py", "utils.py"],
  [("Switch in-topic reference counting", "net/__init__.py:Switch.on_in_topics_changed"), ("remove_link", "net/__init__.py:Switch.remove_link"), ("OutTopic requested flag", "client/topic.py:OutTopic")],
  ["OutTopic.is_requested", "InTopicsChanged messages received on a provider's link"])
prop("N03", "Addressed messages reach only the owner of the address",
  "In a tree-shaped network, a message sent to an address and port is delivered exactly once to the client that holds this address and to no other client, in sending order per sender and with unchanged content, no matter how many switches lie between (an address is taken over from another client only after its release has spread). A message for an address that no connected client holds (never assigned, given up, replaced, or its client disconnected) is delivered to nobody and disturbs nothing else.",
  ["histories", "inputs", "schedules", "configurations"], "all tree topologies, all histories of assigning, changing, dropping addresses, disconnecting and sending",
  "one test sends one message between two clients on one switch",
  ["net/__init__.py", "net/helpers.py", "client/__init__.py"],
  [("Switch.on_addressed_message / on_addresses_changed / remove_link", "net/__init__.py:Switch"), ("Client.set_address", "client/__init__.py:Client.set_address")],
  ["messages received by every client"])
prop("N04", "Advertised costs are the cheapest path costs and routing follows them",
  "In a settled network without cycles among switches, the cost at which any client sees a topic or an address equals the smallest sum of link costs over all current providers (all attached to one switch; where the cheapest announcement was raised or withdrawn while others remain, the cost seen from other switches lies between the former and the current one), and it disappears when the last provider is gone. A subscribed topic that several clients provide is requested from exactly one of them, a cheapest one at the time, and stays requested from a remaining provider when the one in use goes away.",
  ["histories", "configurations"], "all tree topologies with arbitrary link costs, all histories of provider registration, withdrawal and disconnection",
  "the tests use a single switch and a single provider with unit cost",
  ["net/__init__.py", "net/helpers.py"],
  [("PricedIdTracker", "net/helpers.py:PricedIdTracker"), ("request_in_topics_change / on_out_topics_changed", "net/__init__.py:Switch")],
  ["Link.out_topics/addresses of leaf links", "requested flags at the providers"])
prop("N05", "A remapped connection is indistinguishable from one using the mapped ids",
  "A client behind a topic remapping link (with distinct targets for the ids in use) behaves exactly like a client without it whose program uses the mapped ids: what it provides, subscribes to, sends, receives and pauses appears in the rest of the network under the mapped ids, and what it observes appears under its own ids. Ids without a mapping pass unchanged, addressed messages are untouched, and closing either side closes both.",
  ["inputs", "histories"], "all injective id maps and all histories of client operations",
  "tests run a handful of fixed operations with one two-entry map and skip the standard workflow",
  ["net/__init__.py", "system/task.py"],
  [("TopicRemappingLink", "net/__init__.py:TopicRemappingLink")],
  ["messages seen by the remapped client and by its peer"])
prop("N06", "Subscribers learn the current paused state of a topic",
  "After the network has settled, every current subscriber of a topic has seen as the last pause state of that topic the state its current provider last set, including subscribers that joined after the provider set it, and subscribers across several switches. A provider that sets the same state again sends nothing.",
  ["histories", "schedules"], "all interleavings of pausing/unpausing, subscribing late, resubscribing and data traffic",
  "gate tests pause one directly connected topic; late subscription is never tested",
  ["net/__init__.py", "client/topic.py"],
  [("stream_controls replay", "net/__init__.py:Switch.on_in_topics_changed"), ("InTopic/OutTopic paused state", "client/topic.py:InTopic")],
  ["InTopic.is_paused", "control messages on the wire"])
prop("N07", "Registrations are reference counted and announced only as net changes",
  "For any sequence of registrations and withdrawals of provided and subscribed topics by independent parts of one client, the client announces an id to the network exactly when the first registration is made and withdraws it exactly when the last one is released; surplus releases change nothing. Entering and leaving topic contexts and receivers in any nesting has the same net effect, and a forced release withdraws what is actually registered at once.",
  ["histories"], "all sequences of register/unregister/force/contexts/receivers over overlapping id sets",
  "tests register each topic once",
  ["client/__init__.py", "client/receiver.py", "client/topic.py", "utils.py"],
  [("IdTracker", "utils.py:IdTracker"), ("Client.register_* / unregister_*", "client/__init__.py:Client")],
  ["messages sent on the client's link"])
prop("N08", "Messages survive the wire unchanged",
  "Serialising any network message (data, control, addressed, and the three change announcements, with any ids, costs and any MessagePack-representable content with text keys) and deserialising it yields an equal message of the same kind. Payload objects give the same value whether built from an object or from its serialised bytes, a copy is independent of its original, and an updated payload serialises to its updated content.",
  ["inputs"], "all messages and all nested MessagePack values, all sequences of reading, copying, mutating and serialising a payload",
  "tests send a few constant strings and small dicts",
  ["net/serialization.py", "net/messages.py"],
  [("serialize_message / deserialize_message", "net/serialization.py"), ("RawData", "net/serialization.py:RawData")],
  ["deserialize_message(serialize_message(m))", "RawData.data / serialize / copy / update"])

# ---------------------------------------------------------------- connections
prop("C01", "Stream framing delivers every frame intact and recovers after noise",
  "Over a byte stream, the receiver obtains exactly the sequence of byte strings the sender sent, for any contents and any fragmentation of the stream, including concurrent senders on one connection. If bytes that do not contain the frame marker are inserted between frames, every following frame is still received intact, and when the stream ends mid-frame the receiver reports a closed connection and never a partial or invented frame.",
  ["inputs", "fault_sequences", "schedules"], "all frame sequences, fragmentations, noise insertions and truncation points",
  "one test sends a few messages over a unix socket, where the kernel never fragments them",
  ["connection.py"],
  [("RawStreamConnection._send/_recv", "connection.py:RawStreamConnection")],
  ["RawStreamConnection.recv results"])
prop("C02", "Every connection attempt is accepted exactly on matching version and credentials",
  "Throughout the life of a server, each connection attempt is accepted if and only if the client presents the same protocol version and the same credentials the server was configured with (none if none), independently of all earlier attempts. A rejected or malformed attempt fails on the client side, leaves no link behind on the server, does not count as a connection, and does not keep others from connecting; the number of reported connections always equals the number of open ones. Credentials are the auth parameter of the connection URL. Stopping the server ends all its connections.",
  ["histories", "inputs", "fault_sequences"], "all sequences of connection attempts with right, wrong, missing and malformed handshakes and disconnects",
  "the auth test makes at most one attempt per server",
  ["connection.py"],
  [("init_server / init_client", "connection.py:RawConnection"), ("StreamServerBase.on_connection", "connection.py:StreamServerBase")],
  ["success of connect()", "ServerBase.connection_count", "links of the server's switch"])
prop("C03", "A lost connection is re-established and traffic flows again",
  "With a reconnecting connection, after any finite sequence of failed connection attempts and of losses of an established connection, the connection is established again after the configured delay once attempts can succeed, its reported state is true exactly while a link is up, and providers and subscribers on both sides exchange data again without any action of theirs.",
  ["fault_sequences", "schedules"], "all sequences of connect failures and link losses at any time",
  "no test breaks a connection",
  ["connection.py", "worker.py", "net/__init__.py"],
  [("AutoReconnector.run", "connection.py:AutoReconnector"), ("Worker", "worker.py")],
  ["AutoReconnector.connected", "delivery between clients on both sides"])
prop("C04", "Connection URLs mean what they say",
  "For every supported connection URL the transport, host, port or socket path, credentials, extra handshake parameters and link cost are exactly those written in it, with the documented defaults where it is silent; credentials in the URL make client and server agree exactly when they are the same; anything that is not a URL names a local node; and unsupported schemes are refused. An endpoint written as text is read back as the same endpoint.",
  ["inputs", "configurations"], "all URLs of the supported schemes with optional credentials, query parameters, cost and port; all endpoints",
  "tests use two fixed URLs",
  ["connection.py", "net/utils.py"],
  [("extract_connection_data_from_url", "connection.py:extract_connection_data_from_url"), ("connect / create_server", "connection.py")],
  ["fields of the connection data", "type and address of the created server"])
prop("C05", "A network over sockets behaves like one in a single process",
  "Clients on different sides of a socket connection (unix, TCP or WebSocket) see the same topics, exchange the same topic and addressed messages and the same request/response results as when both are attached to one switch, with the connection's cost added to advertised costs. When the connection closes, everything reachable only through it is withdrawn on both sides.",
  ["histories", "configurations"], "all short histories of client operations over all transports",
  "one test exchanges one message per transport",
  ["connection.py", "net/__init__.py"],
  [("RawConnectionLink", "connection.py:RawConnectionLink"), ("websocket connection", "connection.py:RawWebsocketConnection")],
  ["messages received, advertised ids and costs"])

# ---------------------------------------------------------------- client protocols
prop("P01", "Every request gets exactly its own response",
  "For any number of concurrent requests from any clients, each request to a served procedure completes exactly once with the value its own handler invocation produced, and nobody else's. A handler that returns without responding yields an empty response, one that fails yields an error (a bad-request error for invalid request bodies, a general error otherwise) carrying its message, and no failing or unknown request stops the server from serving others.",
  ["schedules", "inputs", "histories"], "all mixes of concurrent requests, handler delays, outcomes and malformed messages",
  "one test makes one request",
  ["client/fetch.py", "client/__init__.py"],
  [("Client.fetch / FetchReponseReceiver", "client/__init__.py:Client.fetch"), ("FetchServer.run", "client/fetch.py:FetchServer")],
  ["results and errors of Client.fetch"])
prop("P02", "Signals are handled once each, in order",
  "Every signal sent to a served descriptor runs its handler exactly once with the sent content, in the order one sender sent them; signals for other descriptors, other ports or with malformed content run nothing, and a failing handler does not keep later signals from being handled.",
  ["histories", "inputs", "schedules"], "all sequences of good, unknown and malformed signals and failing handlers from several clients",
  "one test sends one signal",
  ["client/signal.py"], [("SignalServer", "client/signal.py:SignalServer")], ["handler invocations"])
prop("P03", "Broadcasts reach exactly the receivers of their namespace",
  "Every broadcast on a namespace is received exactly once, in order, under its namespace name and with its content, by every receiver that was listening to that namespace when it was sent, and by nobody else; any number of servers, namespaces and receivers can coexist without mixing up each other's messages.",
  ["histories", "schedules"], "all histories of receivers joining/leaving and broadcasts over several servers and namespaces",
  "one test uses one server and one receiver",
  ["client/broadcast.py"], [("BroadcastingServer", "client/broadcast.py:BroadcastingServer"), ("BroadcastReceiver", "client/broadcast.py:BroadcastReceiver")], ["BroadcastReceiver.get"])
prop("P04", "Discovery never hands out an address or topic id twice",
  "All addresses and all topic ids (including those of topic spaces) the discovery service hands out, to any clients and in any order of concurrent requests, are pairwise distinct, never collide with the reserved ids, and each request receives exactly as many as it asked for. Concurrent address requests by clients that have no address yet each receive their own answer.",
  ["histories", "schedules"], "all interleavings of address, topic and topic-space requests from clients with and without addresses",
  "tests make two sequential requests",
  ["services/discovery.py", "client/discovery.py", "client/__init__.py"],
  [("DiscoveryWorker id generation", "services/discovery.py:DiscoveryWorker"), ("request_addresses", "client/discovery.py:request_addresses")], ["ids returned to clients"])
prop("P05", "Names resolve to their current registration",
  "A client resolving a name it has not cached obtains the address most recently registered for it, or nothing if it was never registered or has been unregistered; waiting for a name completes if and only if it is or becomes registered, with that address. A name registered for the duration of a context is no longer resolvable once the context is left, neither by others nor by the client that held it.",
  ["histories", "schedules"], "all interleavings of registering, unregistering, resolving and waiting by several clients over several names",
  "tests register one name once",
  ["services/discovery.py", "client/discovery.py", "client/__init__.py", "net/utils.py"],
  [("name map", "services/discovery.py:DiscoveryWorker"), ("address_name_context / wait_for_address_name", "client/discovery.py")], ["resolve_address_name, wait_for_address_name results"])
prop("P06", "Topic spaces are stable, private, bijective translations",
  "A registered topic space maps every requested id to a fresh network-wide unique id; looking the space or a single id up later, from any client, gives the same mapping for as long as the space exists. Different spaces never share a target id, and looking up a deleted or unknown space or an id that is not in it is an error that leaves the service working.",
  ["histories"], "all histories of registering, reading, translating and deleting topic spaces",
  "one test reads one space back",
  ["services/discovery.py", "client/discovery.py"],
  [("topic space routes", "services/discovery.py:DiscoveryWorker")], ["register_topic_space, get_topic_space, get_topic_space_translation, delete_topic_space"])

# ---------------------------------------------------------------- synchronisation and async building blocks
prop("S01", "Synchronised inputs are consumed in timestamp order without loss or stall",
  "When several input topics share a sequential synchroniser, the messages handed out over all of them have non-decreasing timestamps as long as no topic is paused or newly joining, and within one topic they keep their order. A message is dropped only if it has no timestamp, is older than the previous one of its topic, or older than what the other topics were at when its topic was last resumed; every other message is handed out as soon as every other topic that takes part (has delivered something or was resumed, and is not paused) has reached its timestamp; pausing a topic releases those waiting for it.",
  ["schedules", "histories", "inputs"], "all interleavings of arrivals on up to five topics, consumer delays, pauses and duplicate timestamps",
  "one test sends increasing timestamps on three topics",
  ["client/topic.py", "message/utils.py"],
  [("SequentialInTopicSynchronizer", "client/topic.py:SequentialInTopicSynchronizer"), ("_SynchronizedInTopicReceiver", "client/topic.py")], ["order of recv_data results"])
prop("S02", "On equal timestamps the higher priority input is handled first",
  "With a prioritised synchroniser, whenever two topics hold messages with the same timestamp, the one with the higher priority is handed out and its consumer is done with it first, for every message of the stream and not only the first; apart from ties the order is that of sequential synchronisation, and no message is lost or stuck.",
  ["schedules", "histories"], "all streams on topics with arbitrary priorities and equal or different timestamps",
  "no test covers priorities",
  ["client/topic.py"],
  [("PrioritizedSequentialInTopicSynchronizer", "client/topic.py:PrioritizedSequentialInTopicSynchronizer")], ["order of recv_data results"])
prop("S03", "Producers run exactly while needed and consumers get every message",
  "A shared producer runs exactly while at least one consumer is waiting on it or somebody holds it open, is never run twice at once, and is restarted when needed again. Every registered consumer receives every message it accepts that was sent while it was registered, once and in order, including messages still queued when the producer ends or fails, and then sees the end of the stream or the failure.",
  ["schedules", "histories"], "all interleavings of entering, leaving, waiting, cancelling, sending, ending and closing with several consumers",
  "tests cover a few fixed enter/exit orders",
  ["utils.py", "media/container.py"],
  [("AsyncProducer/AsyncMPProducer", "utils.py:AsyncProducer"), ("AsyncConsumer", "utils.py:AsyncConsumer")], ["values returned by get, times at which run is active"])
prop("S04", "Async building blocks lose no wake-ups and obey their contracts",
  "Waiting on a flag, trigger, observable or id tracker completes at every change made while waiting and never before; a task group cancels all its tasks in priority order and finishes with none left running; waiting with dependencies returns the main result when it finishes first and raises otherwise; id generators cycle through exactly their range.",
  ["schedules", "histories"], "all sequences of operations and waiters",
  "tests take one or two fixed paths through each",
  ["utils.py"],
  [("AsyncBool/AsyncTrigger/AsyncObservable/AwaitableIdTracker/AsyncTaskManager/wait_with_dependencies/IdGenerator", "utils.py")], ["completion order of waiters and tasks"])

# ---------------------------------------------------------------- task system and persistence
prop("T01", "The task manager's view equals what really happened to every task",
  "After any history of registering and unregistering task hosts and starting, finishing, failing and cancelling tasks, the task manager lists exactly the hosts currently registered and the tasks currently running on them with the configuration they were started with; a task that ended (by itself, by error, or by cancellation) or whose host left is reported once to subscribers with its final status and is then unknown. Cancelling really stops the task, and a start that fails in any way is reported with its error and leaves nothing running.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of host and task lifecycle operations, with tasks that fail while being created, set up or run",
  "tests start and cancel one well-behaved task",
  ["system/task.py"],
  [("TaskManager", "system/task.py:TaskManager"), ("TaskHost.run_task", "system/task.py:TaskHost")], ["TaskManagerClient list/get/receive results", "events recorded by the tasks"])
prop("T02", "Tasks in different topic spaces never see each other's topics",
  "A task started in a topic space uses only that space's translated ids on the network: two instances of the same task with the same configuration in different spaces never receive each other's data, while tasks in the same space do communicate through equal ids (those the space was requested for); a task started without a space uses the ids as they are. Each topic has one provider at a time, and reserved ids are not used.",
  ["histories", "configurations"], "all assignments of tasks to topic spaces and all message sequences",
  "one test runs one task in one space",
  ["system/task.py", "net/__init__.py", "services/discovery.py"],
  [("TaskHost.create_client", "system/task.py:TaskHost"), ("TopicRemappingLink", "net/__init__.py:TopicRemappingLink")], ["data received on translated ids"])
prop("T03", "The deployment store is consistent, durable and protects running deployments",
  "After any history of creating, updating and deleting deployments, tasks and dashboards, the management interface returns exactly what was last stored, a deletion removes exactly what it names, and all of it is still there after the store is reopened. While a deployment is running neither it nor its tasks can be changed, deleted, added or moved out of it (dashboards can be edited at any time); operations on unknown ids are answered with an error, and a refused operation changes nothing.",
  ["histories", "crash_points"], "all histories of store operations with reopenings in between",
  "one test creates, starts and stops one deployment",
  ["system/task_web.py", "pydanticdb.py"],
  [("TaskWebBackendStore", "system/task_web.py:TaskWebBackendStore"), ("PydanticDB", "pydanticdb.py")], ["results of the store operations"])
prop("T04", "Starting and stopping deployments through the web API is consistent",
  "Starting a deployment starts every one of its tasks on its host inside one fresh topic space, and stopping it stops all of them and releases the space, after which it can be started again; the reported status reflects the states of its task instances at every moment. A deployment can neither be scheduled nor started while it is running nor stopped when it is not, and a start that fails (also because its host is missing) is reported on the task that failed.",
  ["histories", "fault_sequences"], "all histories of start/stop/status/cancel over deployments with well-behaved and failing tasks",
  "one test starts and stops one deployment with good tasks",
  ["system/task_web.py", "system/task.py"],
  [("deployment start/stop routes", "system/task_web.py:TaskWebBackend")], ["HTTP API responses, task manager listing"])
prop("T05", "Stored models and buffers are returned as stored",
  "A store of models returns exactly the list of entries last put into it, and after being reopened the one last saved; changes to objects it handed out have no effect. A disk-backed message buffer behaves like a list of the messages put in, for any sequence of appends, pops at either end, indexing, replacement, deletion, iteration and clearing, and leaves no files behind when it is gone.",
  ["histories", "crash_points"], "all operation sequences and all serialisable contents",
  "neither has any test",
  ["pydanticdb.py", "rawdatabuffer.py"],
  [("PydanticDB", "pydanticdb.py:PydanticDB"), ("RawDataBuffer", "rawdatabuffer.py:RawDataBuffer")], ["values read back"])
prop("T06", "Named topics and secrets keep the last value under each name",
  "The named topic service maps each name to one topic id that stays the same for everyone for as long as the service runs and the entry exists, and different names never share an id; stored metadata is returned as last put, also after a restart, over both its interfaces and for any name. The secret service returns for each id the value last stored, reports unknown ids as not found, and never mixes up ids; both services, being registered under different names, can run side by side.",
  ["histories", "crash_points"], "all histories of put/get/delete/resolve with restarts",
  "no test covers either service",
  ["system/named_topic_manager.py", "system/secret_manager.py", "services/constants.py"],
  [("NamedTopicManager", "system/named_topic_manager.py"), ("SecretManager", "system/secret_manager.py")], ["results of the request interfaces"])
prop("T07", "Function tasks call the function with the latest inputs and send every result",
  "A task made from a plain function calls it, once all its inputs have a value, for each new input message with the latest value of every input, with the configuration it was started with, with its own persistent state, and with that message's timestamp where asked for, and sends each returned value on the corresponding output with that timestamp; supported signatures are accepted and invalid ones refused when the task is defined.",
  ["inputs", "histories", "programs"], "all supported signatures (inputs, timestamp, state, config, sync/async, one or several outputs) and input sequences",
  "no test covers function tasks",
  ["system/fntask.py", "system/configurators.py"],
  [("fntask", "system/fntask.py")], ["arguments seen by the function, messages on its outputs"])
prop("T08", "Connection entries never leak credentials and keep their identity",
  "The connection manager lists exactly the connections and servers it was given, each with an identity that depends only on its URL, keeps them across restarts and crashes, refuses invalid and repeated URLs, reports whether they are up, tells browsers that watch when that changes, ends them when they are deleted or it stops, and never exposes user names, passwords or query parameters in what it lists.",
  ["inputs", "histories"], "all URLs and all histories of adding and removing entries with restarts",
  "no test covers it",
  ["system/connection_manager.py"],
  [("ConnectionManager", "system/connection_manager.py")], ["listing responses"])

prop("T09", "What the web interface serves is what lives on the network now",
  "A request or websocket for a registered host, a running task or a registered path reaches exactly the application or file which that host, task or path has at that moment, with method, path, query, headers and body unchanged, and the answer comes back unchanged; whatever is not there now - unknown, not started yet, ended, unregistered - is answered as not found. Listings and update notices of hosts and paths agree with what was registered and removed, in order. A topic shown in a browser shows every message and pause change of that topic in order, and nobody is asked to publish it once no browser shows it.",
  ["histories", "inputs", "schedules"], "all histories of hosts, tasks and tools coming, changing and going, with requests and websockets of browsers in between",
  "no test covers these routes",
  ["system/task_web.py", "system/task.py", "asgi.py", "asgiserver.py", "utils.py"],
  [("routes of the task web backend", "system/task_web.py:TaskWebBackend")], ["responses, websocket messages, what the applications saw"])

# ---------------------------------------------------------------- HTTP
prop("H01", "An application behind the network tunnel behaves as if called directly",
  "An ASGI application reached through the network answers any HTTP request or WebSocket conversation with exactly the events it would produce when called directly with the same scope and the same client events: same status, headers, body bytes and messages in the same order, for any number of concurrent requests. When either side disconnects or the application fails, the other side is told and nothing hangs.",
  ["inputs", "schedules", "fault_sequences"], "all scopes and event sequences, several concurrent conversations, arbitrary chunkings",
  "tests tunnel one small request",
  ["asgi.py"],
  [("ASGIProxyApp / ASGIAppRunner / ASGIEventSender/Receiver", "asgi.py")], ["events observed by caller and application"])
prop("H02", "Values crossing the tunnel keep their exact type and value",
  "Encoding any supported value (nested mappings, lists and tuples of strings, bytes, numbers, booleans and nothing) for transport and decoding it again yields an equal value of the same types, for both encodings.",
  ["inputs"], "all nested values of the supported types",
  "tests encode two constant values",
  ["asgi.py"], [("ValueTransformer", "asgi.py")], ["decode(encode(v))"])
prop("H03", "Routes match exactly the paths of their pattern and bind the right parameters",
  "A path pattern matches a request path exactly when the path can be read as the pattern with each parameter replaced by a possibly empty text without slashes (or, for a wildcard parameter, by any text), and then binds exactly those pieces; building a path from the bound parameters gives the path back, and building refuses missing values and slashes in plain parameters. A router calls the first registered handler whose kind, method and pattern match, passes everything else on, and a rewriting handler presents the rewritten path.",
  ["inputs", "programs"], "all patterns and paths over literal, parameter and wildcard segments, all route tables",
  "tests match three fixed routes",
  ["asgiserver.py"], [("PathPattern", "asgiserver.py:PathPattern"), ("ASGIRouter", "asgiserver.py:ASGIRouter")], ["handler called, parameters, response"])
prop("H04", "Static file serving returns the file asked for and nothing outside its folder",
  "A static folder handler answers a request for a file inside the folder (including index files of folders) with its exact content, length and type, and for every other path, however encoded or containing parent references or links leading out of it, never reveals anything outside the folder and answers not found.",
  ["inputs", "configurations"], "all folder trees (with links) and all request paths",
  "one test requests a few existing files",
  ["asgiserver.py"], [("static_files_handler / respond_file", "asgiserver.py")], ["status and body of responses"])
prop("H05", "Request and response bodies are transferred completely and described correctly",
  "Whatever way a handler sends its body (bytes, text, JSON, file, buffered stream) the client receives exactly those bytes with the declared status, type and a content length equal to the number of bytes sent; and a handler reading the request (whole, as text, JSON, or in chunks) obtains exactly the bytes the client sent, however they were split, decoded with the declared character set. Content-type headers with parameters, also quoted ones, are parsed as written, WebSocket messages (also empty ones) are handed over as they are, and data URIs give the bytes they encode.",
  ["inputs", "schedules"], "all bodies, chunkings, charsets, headers and handler styles",
  "tests send one short text and one JSON",
  ["asgiserver.py"], [("HTTPContext / HTTPBodyWriter / HTTPBodyReader", "asgiserver.py")], ["bytes and headers on both sides"])
prop("H06", "Handler failures become exactly one well-formed error response",
  "When a handler raises before responding, the client receives exactly one complete response whose status is the documented one for that kind of failure (bad input, not found, remote errors by their code, otherwise internal error); unmatched requests receive not-found, unmatched WebSockets are closed, and a failure after the response was started never produces a second response.",
  ["inputs", "fault_sequences"], "all failure kinds at all points of the response, all nestings of handlers",
  "no test makes a handler fail",
  ["asgi.py", "asgiserver.py"], [("asgi_default_http_error_handler", "asgi.py"), ("ASGIServer fallbacks", "asgiserver.py:ASGIServer")], ["events sent to the client"])

# ---------------------------------------------------------------- tasks
prop("K01", "The calculator computes what its manual says",
  "Every formula of the documented language evaluates to the value given by the documented meaning of its operators, functions, constants, conditionals, parentheses and variables. Operators bind, from loosest to tightest: conditional, logical (& | ^), comparisons, additive, multiplicative, power, unary; binary operators associate to the left, of a conditional only the selected branch is evaluated, and comparisons and logical operators yield 1 or 0. Anything outside the language - unknown names, functions that are not documented, wrong numbers of arguments, any other text - is refused as a configuration and cannot do anything but calculate.",
  ["programs", "inputs"], "all formulas of the grammar over all variable values",
  "one test evaluates one formula",
  ["system/tasks/calculator.py"], [("grammar and evaluation", "system/tasks/calculator.py")], ["value of evaluated formulas"])
prop("K02", "The calculator task recomputes on every input with the latest values",
  "For every valid number message on any of its inputs the calculator task sends exactly one result: the formula evaluated over the latest value of each input (its default before the first value and while the input is paused), stamped with that message's timestamp. Invalid messages, and values for which the formula has no value (division by zero, overflow, domain errors), send nothing and do not end the task; with synchronised inputs values are combined in timestamp order.",
  ["histories", "inputs"], "all message sequences over several inputs, synchronised or not",
  "not covered by any test",
  ["system/tasks/calculator.py"], [("CalculatorTask", "system/tasks/calculator.py:CalculatorTask")], ["messages on the output"])
prop("K03", "The gate lets data through exactly while it is open",
  "A gate forwards an input message unchanged if and only if it is open according to the last control value, the pause state of control and its fail mode, and pauses its output exactly while it is closed or its input is paused; a synchronised gate applies a control message before input messages of the same timestamp.",
  ["histories", "schedules"], "all sequences of control values, invalid controls, pauses and data in both fail modes, synchronised or not",
  "tests check fixed permutations of six events, unsynchronised, without input pauses",
  ["system/tasks/gate.py", "client/topic.py"], [("GateTask / GateState", "system/tasks/gate.py")], ["messages and pauses on the output"])
prop("K04", "Selecting tasks forward exactly the selected input",
  "The switch task forwards, unchanged and in order, exactly the messages of the input whose control currently has the highest value, and its output is paused exactly while the selected input is; a paused control does not take part, and controls that are no numbers (NaN included) change nothing. The media switch does the same but changes over to another input only at one of its key frames, so that every run of packets it forwards from one input is contiguous there and begins with a key frame; messages of all other inputs are dropped.",
  ["histories"], "all sequences of control, data and pause events over up to four inputs",
  "not covered by any test",
  ["system/tasks/switch.py", "system/tasks/media/mediaswitch.py"], [("SwitchTask", "system/tasks/switch.py"), ("MediaSwitch", "system/tasks/media/mediaswitch.py")], ["messages and pauses on the output"])
prop("K05", "State and detection tasks follow their state machines",
  "The latch, message detector and synchroniser tasks produce for every history of inputs exactly the outputs of their state machines. A latch outputs, on each message, 1 after a set and 0 after a reset (values above 0.5 count as high) and holds its state while both are high or both are low. The detector sends 1 while messages arrive (its input is not paused, no time-out has passed since the start or the last message, and that message was valid or its fail mode is open) and 0 otherwise, at each change and again at each repeat interval. The synchroniser forwards all messages, unchanged, merged in timestamp order with the pause state of each input on its own output.",
  ["histories", "schedules"], "all sequences of values, pauses and invalid messages",
  "not covered by any test",
  ["system/tasks/srlatch.py", "system/tasks/messagedetector.py", "system/tasks/synchronizer.py"], [("SRLatchTask etc.", "system/tasks/srlatch.py")], ["messages on the outputs"])
prop("K06", "Text tasks transform every message as configured",
  "Matching, formatting, concatenating and converting numbers or times to text give for every valid input message exactly the documented result, stamped with the input's timestamp: a regular expression is matched from the beginning of the text (not necessarily to its end) and plain text anywhere in it, with the configured flags; templates are filled with the latest values (a paused variable loses its value); text is collected and sent at each rising control. Invalid messages are skipped without failing, and pauses reach the output.",
  ["inputs", "histories"], "all strings, patterns, flags, templates, numbers and message sequences",
  "not covered by any test",
  ["system/tasks/stringmatcher.py", "system/tasks/textformatter.py", "system/tasks/stringconcatenator.py", "system/tasks/numbertotext.py", "system/tasks/timetotext.py"], [("text tasks", "system/tasks/")], ["messages on the outputs"])
prop("K07", "Time-shifting tasks keep every message, its order and its content",
  "The time buffer releases every message in arrival order, unchanged, not before and not long after the configured span has passed on its reference (the clock, or the newest message's timestamp), and passes a pause on once the last held message was released; the timestamp updater sends each message once with exactly its timestamp replaced by the reference plus offset; neither loses or duplicates messages nor alters anything else.",
  ["histories", "schedules", "inputs"], "all message sequences, timestamps, spans and pauses on both time references",
  "not covered by any test",
  ["system/tasks/timebuffer.py", "system/tasks/timestampupdater.py"], [("TimeBufferTask", "system/tasks/timebuffer.py"), ("TimestampUpdaterTask", "system/tasks/timestampupdater.py")], ["messages and times on the outputs"])
prop("K08", "Repeating tasks emit at their rate what they should repeat",
  "The pulse generator emits well-formed pulses at the configured interval. The repeater emits the latest valid message at the configured rate, without drifting, with fresh timestamps; it is silent while its input is paused, and a message without a timestamp is passed on once (fail open) or ends the repetition until the next valid one (fail closed). The replay buffer plays back exactly the recorded messages, of any kind, in order with their original spacing on the play input's clock when play rises, is paused whenever it is not playing, stops at once when told to, forgets its recording when its input resumes after a pause, and plays again from the start only if it loops or is told to anew.",
  ["histories", "schedules"], "all rates, message sequences, pauses and control sequences",
  "not covered by any test",
  ["system/tasks/pulsegenerator.py", "system/tasks/repeater.py", "system/tasks/replaybuffer.py"], [("repeating tasks", "system/tasks/")], ["messages and times on the outputs"])
prop("K09", "Named inputs and outputs carry a stream unchanged",
  "Whatever is sent into a named output, data and pauses, comes out of every named input with the same name in the same order and unchanged, and of no named input with another name, whichever of them started first and however often they restart.",
  ["histories"], "all message sequences over several names",
  "not covered by any test",
  ["system/tasks/namedinput.py", "system/tasks/namedoutput.py", "system/named_topic_manager.py"], [("NamedInputTask/NamedOutputTask", "system/tasks/")], ["messages on the outputs"])
prop("K10", "Control widgets emit every user value and repeat it",
  "A control widget (slider, switch, radio buttons, text input) sends its initial value when started, every value a user posts to it, and the current value again after each repeat interval without change, as a number or text message; of several values posted at once at least the last one is sent. Invalid values are refused with an error and change nothing; its web interface returns the current value and configuration, and every open web socket is told of each change.",
  ["histories", "schedules"], "all sequences of valid and invalid posts at all times",
  "not covered by any test",
  ["system/tasks/ui/controlbase.py", "system/tasks/ui/sliderui.py", "system/tasks/ui/switchui.py", "system/tasks/ui/radiobuttonsui.py"], [("UIControlBaseTask", "system/tasks/ui/controlbase.py")], ["messages on the output, HTTP responses"])

prop("K11", "Display widgets show the latest of what they were sent",
  "A display widget (text, status, bar, audio spectrum) shows over HTTP and on every open web socket, as valid JSON, the value of the last valid message: the number; the text appended to what was shown and cut to the configured length; the spectrum of the last complete second in bins of the configured size, relative to its maximum. Invalid messages change nothing and do not end it, and after any burst of messages every page shows the last value. The web viewer's page embeds exactly the configured address.",
  ["histories", "inputs"], "all message sequences and bursts, numbers, texts, sounds, bin sizes and addresses",
  "not covered by any test",
  ["system/tasks/ui/controlbase.py", "system/tasks/ui/textdisplay.py", "system/tasks/ui/statusdisplay.py", "system/tasks/ui/valuedisplaybar.py", "system/tasks/ui/audiofrequencydisplay.py", "system/tasks/ui/webviewer.py"], [("UIBaseTask", "system/tasks/ui/controlbase.py:UIBaseTask")], ["HTTP responses, web socket messages"])

# ---------------------------------------------------------------- media
prop("M01", "Re-chunking audio loses and invents no samples",
  "Cutting an audio stream into fixed chunks (plain or with padding) yields chunks of exactly the configured size whose concatenation is a prefix of the input stream with less than two chunks held back, however the input was split, and each chunk's timestamp is that of its first (unpadded) sample to within rounding.",
  ["inputs", "histories"], "all chunk sizes, rates, paddings and input splittings",
  "not covered by any test",
  ["media/util.py"], [("AudioChunker / PaddedAudioChunker", "media/util.py")], ["yielded chunks and timestamps"])
prop("M02", "Audio sequencing and mixing place every sample at its time",
  "An audio sequencer fed with consecutive blocks returns, for any sequence of requests, exactly the samples at the requested times with silence where there are none, and compensates drift without changing the total timing. The mixer's output is the sample-wise sum of its unpaused tracks aligned by timestamp, each output sample covered once.",
  ["inputs", "histories", "schedules"], "all block sizes, timestamps, gaps, drifts and request patterns",
  "not covered by any test",
  ["media/util.py", "system/tasks/media/audiomixer.py"], [("AudioSequencer", "media/util.py:AudioSequencer"), ("AudioMixerTask", "system/tasks/media/audiomixer.py")], ["popped samples, output messages"])
prop("M03", "Image merging is alpha compositing in track order",
  "Merging equally sized images with an alpha channel gives at every pixel the composite of the later over the earlier images within rounding, keeps fully opaque and fully transparent pixels exact, reads and writes nothing outside the images, and accepts alpha in front or at the end. The video mixer sends, for every moment, the merge of the latest frames of its tracks over the configured background, of exactly the configured size, and ignores frames of another size and invalid messages.",
  ["inputs"], "all image counts, sizes and contents, both alpha positions",
  "not covered by any test",
  ["media/video_perf_all.cpp", "system/tasks/media/videomixer.py"], [("merge_images", "media/video_perf_all.cpp")], ["merged bytes"])
prop("M04", "Raw audio and video buffers convert without loss",
  "Turning raw audio or video bytes into frames and back yields the same bytes for every supported format, channel count and size, and lossless encoding and decoding returns the original samples or pixels with their timing in order, also through the encoder, decoder and resampler tasks, which ignore messages they cannot use.",
  ["inputs", "configurations"], "all formats, sizes and contents",
  "tests transcode a fixed synthetic video lossily",
  ["media/audio.py", "media/video.py", "media/codec.py", "media/packet.py"], [("AudioFrame / VideoFrame / Encoder / Decoder", "media/codec.py")], ["bytes after the round trip"])
prop("M05", "Media packets survive messages with timing intact",
  "A coded packet turned into a message and back keeps its data, key-frame mark and timing, for every timestamp including zero and negative offsets, so that a stream of packets is decoded to the same frames after transport.",
  ["inputs"], "all packets with any timestamps and contents",
  "no test serialises packets",
  ["media/packet.py"], [("MediaPacket", "media/packet.py")], ["fields after round trip"])
prop("M06", "Frame-rate conversion keeps the clip's timing",
  "Converting the frame rate of a video yields frames at exactly the target spacing covering the same time span, each showing the source frame current at its time, whatever the source and target rates; scaling and pixel-format conversion change neither count nor order.",
  ["inputs", "configurations"], "all rate pairs, frame counts, sizes and pixel formats",
  "one test copies a single frame",
  ["media/video.py"], [("VideoReformatter", "media/video.py")], ["output frames"])
prop("M07", "What is written to a media container can be read back",
  "Packets written to an output container on any set of tracks come back from an input container with the same count, data, order per track and relative timing, and tracks are written in step: no packet before another track has reached its time. Reading with another codec gives the same frames at the same times. The output container task puts every packet that is in time at the place its timestamp says, leaves out only packets of tracks that are ahead of their timestamps by more than the allowed desynchronisation, and does not wait for paused tracks. The input container task sends every packet of every track with the timestamp of its position, at that time if configured, and ends when the file ends.",
  ["inputs", "histories", "configurations"], "all track sets, codecs, formats, interleavings, timestamp jitters, gaps and pauses",
  "tests write one fixed clip and are skipped or unstable",
  ["media/container.py", "system/tasks/media/inputcontainer.py", "system/tasks/media/outputcontainer.py"], [("OutputContainer/InputContainer", "media/container.py"), ("OutputContainerTask", "system/tasks/media/outputcontainer.py"), ("InputContainerTask", "system/tasks/media/inputcontainer.py")], ["packets read back, messages on the output topics"])
prop("M08", "Audio level tasks measure and scale exactly",
  "The volume scaler multiplies every sample by the configured (or last received) factor, saturating instead of wrapping; the volume meter reports exactly the level of each window; samples are otherwise unchanged and timestamps kept.",
  ["inputs", "histories"], "all sample contents, formats and factor sequences",
  "not covered by any test",
  ["system/tasks/media/audiovolumescaler.py", "system/tasks/media/audiovolumemeter.py"], [("AudioVolumeScalerTask", "system/tasks/media/audiovolumescaler.py")], ["output samples"])
prop("M09", "Video layout, activity meter and image renderer work on exact pixels",
  "The layout task draws each frame scaled into its configured rectangle, cuts off what lies outside and leaves the rest transparent, in frames of exactly the configured size with the timestamp kept. The activity meter reports the mean absolute change between consecutive frames. The image renderer emits its image at the configured size, format and rate. Frames of another size and invalid messages are ignored.",
  ["inputs", "configurations", "histories"], "all canvas sizes, rectangles, pixel formats, images and message sequences",
  "not covered by any test",
  ["system/tasks/media/videolayout.py", "system/tasks/media/videoactivitymeter.py", "system/tasks/media/imagerenderer.py"], [("VideoLayoutTask", "system/tasks/media/videolayout.py"), ("VideoActivityMeterTask", "system/tasks/media/videoactivitymeter.py")], ["output pixels, reported values"])

# ---------------------------------------------------------------- browser code
prop("W01", "Editing a task spreads a value to all linked fields or changes nothing",
  "When the browser code applies values to a task's description, every field linked to an edited one (directly or over other fields, single fields or whole records) gets the value too, and nothing else changes. If any value that would change is refused by a field's rule, nothing at all changes. A field counts as locked exactly when it or a field linked to it holds a value its own rule refuses. A control's rule accepts exactly the values the control offers: numbers within their bounds and integral where required, the listed choices, booleans, texts, tables of texts. Two stream descriptions differ exactly in the fields that differ, leaving out name, key and topic.",
  ["inputs", "histories", "configurations"], "all records, links, rules and sequences of edits; all control descriptions and values",
  "the repository has no test of the browser code",
  ["web-packages/core/src/lib/configurator/graph.ts", "web-packages/core/src/static-editor/util.ts", "web-packages/core/src/lib/configurator/helpers.ts", "web-packages/core/src/lib/task.ts"],
  [("GraphSetter", "web-packages/core/src/lib/configurator/graph.ts:GraphSetter"), ("getConfigModelByFields", "web-packages/core/src/static-editor/util.ts:getConfigModelByFields"), ("getObjectDiffPaths", "web-packages/core/src/lib/task.ts")],
  ["GraphSetter.data after apply, isDisabled, the fields' models"])
prop("W02", "What is built in the task editor is what its host accepts and runs",
  "For every built-in kind of task, whatever is connected, typed, chosen, toggled or removed in its editor window: the window shows the task's current fields and inputs; a change appears in the task at every place the host's description links it to and nowhere else; values a field does not allow are not taken; connections to streams of another description are refused, and a field a connection depends on cannot be changed while connected; lists of inputs and outputs grow, shrink and are labelled as described with unique keys and stream ids; listeners are told the task as it then is. A task built this way is accepted by its host as long as its required inputs are connected.",
  ["inputs", "histories", "configurations"], "all task kinds that use the built-in configurators, all sequences of edits and connections",
  "the repository has no test of the browser code; hosts are only tested with fixed configurations",
  ["web-packages/std-configurators/src/entries/static.tsx", "web-packages/std-configurators/src/entries/multitrackio.tsx", "web-packages/core/src/lib/task.ts", "web-packages/core/src/static-editor", "system/configurators.py"],
  [("static / multitrackio configurators", "web-packages/std-configurators/src/entries"), ("StaticEditor", "web-packages/core/src/static-editor/editor.tsx"), ("static_configurator / multitrackio_configurator", "system/configurators.py")],
  ["controls of the task window, the ManagedTask's data, the host's answer to it"])
prop("W03", "What the page shows of deployments is what the server stores and runs",
  "Whatever a user does on the deployments' pages (create, rename, edit, connect, delete, start, stop, schedule, leave, reload) and however late or out of order the server answers: an edit that was made is stored once its saving time is over, and is still there after the page is left or loaded again; a deleted task does not come back and one task's save never changes another's; a deployment that is started runs exactly what the page showed; the page shows each task's status and error as the server has them; while a deployment runs its tasks cannot be changed; stored dashboards come back as they were given.",
  ["inputs", "histories", "schedules", "faults"], "all sequences of user actions, answer delays and reloads; all kinds of tasks",
  "the repository has no test of the browser code; the backend is only tested with single requests",
  ["web-packages/app/src/state", "web-packages/core/src/lib/task.ts", "system/task_web.py", "system/task.py"],
  [("DeploymentManager", "web-packages/app/src/state/deployment-manager.ts:DeploymentManager"), ("TaskStore", "web-packages/app/src/state/task-store.ts:TaskStore"), ("TaskManager", "web-packages/app/src/state/task-manager.ts:TaskManager"), ("TaskWebBackend", "system/task_web.py:TaskWebBackend")],
  ["the stores' and managers' data, the server's answers, the configs the hosts are given"])
prop("W04", "The canvas shows what is connected, and what is on it follows the pointer",
  "Whatever a user does on the canvas of a deployment (pressing, dragging and letting go of nodes and connectors, moving and zooming the view, nodes being added, changed and deleted, connections being refused): a connector that is dragged to a fitting one connects exactly these two and takes the place of the input's former connection, pressing an input takes off the connection of that input and of no other, and a refusal changes nothing and is told once with the input it concerns; exactly one line is drawn for each accepted connection between nodes on the canvas, from its input's connector to its output's, also after nodes moved, and gone once a node that changed offers an output the connected input now refuses, and dashed unless both run on the same node of the network; a read-only canvas changes nothing. A dragged node, a dashboard's window and the resized edges of a window move by what the pointer moved at the present zoom while the other edges stay, and listeners are told of it; the point under the pointer stays under it while zooming, and no zoom ever makes the canvas vanish or turn over.",
  ["inputs", "histories"], "all sequences of user actions and changes of nodes, all views and layouts",
  "the repository has no test of the browser code",
  ["web-packages/app/src/lib/node-editor/renderer.ts", "web-packages/app/src/lib/html-viewport.ts", "web-packages/app/src/lib/window-editor/editor.ts"],
  [("NodeEditorRenderer", "web-packages/app/src/lib/node-editor/renderer.ts:NodeEditorRenderer"), ("HTMLViewport", "web-packages/app/src/lib/html-viewport.ts:HTMLViewport"), ("WindowEditorRenderer", "web-packages/app/src/lib/window-editor/editor.ts:WindowEditorRenderer")],
  ["the document the page builds (places of nodes and windows, lines, the view's transform), the nodes' inputs, what listeners are told"])


os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
assert len({p["id"] for p in P}) == len(P)
for p in P:
  assert len(p["title"]) <= 80, p["id"]
with open("properties.jsonl", "w") as fd:
  for p in P: fd.write(json.dumps(p) + "\n")
print(len(P), "properties")
