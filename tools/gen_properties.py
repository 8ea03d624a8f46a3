"""Writes /verif/properties.jsonl (kept as a script so the statements are editable)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Wire escaping is complete, injective and its own inverse",
     "Every byte that has a meaning on the KATCP wire (backslash, space, NUL, newline, "
     "carriage return, escape, tab, and the empty argument) is escaped when a message is "
     "serialised and every defined escape is turned back into exactly that byte when a "
     "line is parsed. Serialising never lets an argument introduce a new argument, a new "
     "line or an undefined escape, and an escape the protocol does not define is refused "
     "as a syntax error. Arguments that are not byte strings are first converted by type: "
     "booleans to 1 or 0, integers to decimal, floats with full precision, text to UTF-8.",
     ["inputs"], "all byte strings as message arguments, all lines received",
     "tests escape a handful of strings; the guarantee is about every byte value, every "
     "position and every code path that renders a message",
     ["katcp/core.py"],
     [("escape tables", "core.Message.ESCAPE_LOOKUP / REVERSE_ESCAPE_LOOKUP / ESCAPE_RE"),
      ("serialiser", "core.Message.__bytes__"), ("parser", "core.MessageParser")])

prop("C02", "Malformed lines are rejected only with a KATCP syntax error",
     "Parsing a line either yields a message whose type, name, message id and arguments "
     "are those of the line, or raises the KATCP syntax error: no other exception escapes "
     "for any input. Unknown type characters, bad names, bad message ids, missing names, "
     "undefined escapes and unescaped special characters are all refused.",
     ["inputs"], "all byte strings given to the message parser",
     "tests parse a short list of bad lines; the set of malformed lines is unbounded",
     ["katcp/core.py"],
     [("grammar tables", "core.MessageParser.SPECIAL_RE, WHITESPACE_RE, UNESCAPE_RE, NAME_RE"),
      ("Message constructor validation", "core.Message.__init__")])

prop("C03", "Replies and informs carry the request's name and message id",
     "Every reply and every reply-inform a server produces for a request, including "
     "failure, invalid-message and unknown-request replies, carries the name of that "
     "request and its message id exactly when the request had one. Copying a message "
     "preserves its type, name, message id and arguments.",
     ["inputs", "programs"], "all requests, all handlers and reply paths",
     "tests check the id on a few commands; every construction site of a reply matters",
     ["katcp/core.py", "katcp/server.py", "katcp/kattypes.py"],
     [("reply constructors", "core.Message.reply_to_request / reply_inform / copy"),
      ("request connection", "server.ClientRequestConnection")])

prop("C04", "Each request gets exactly one reply, whatever its handler does",
     "For every request dispatched to a handler the client is sent exactly one reply: the "
     "handler's return value, the failure it signals, a failure carrying the error text if "
     "it raises anything else, or the one it sends itself after declaring it replies "
     "asynchronously. This holds when the handler returns a future, when the future fails, and "
     "for unknown requests; a second reply on the same request is refused. The "
     "request's completion is always signalled so that waiting code never hangs.",
     ["inputs", "programs", "fault_sequences"],
     "all handlers (synchronous, future-returning, asynchronous, raising), all requests",
     "tests exercise a few handler shapes; the guarantee covers every exit path of dispatch",
     ["katcp/server.py"],
     [("dispatch", "server.DeviceServerBase.handle_request"),
      ("one-shot request connection", "server.ClientRequestConnection"),
      ("decorators", "server.MessageHandlerThread, kattypes.async_reply/return_reply")],
     [("reply-sent state of a request connection", "a request can be answered once",
       "server.ClientRequestConnection")])

prop("C05", "A server connection survives bad input and never replays old messages",
     "A malformed line is logged and reported to the client that sent it and the server "
     "goes on reading from it; an exception in message handling is logged and the server "
     "goes on reading; a failure to read (over-long input included) ends reading and closes "
     "that connection. Only messages parsed from a freshly read line are dispatched, one at "
     "a time and in the order received; blank lines are ignored and a closed stream ends "
     "the loop and disconnects the client.",
     ["inputs", "fault_sequences", "histories"],
     "all byte streams, all read and dispatch faults, all interleavings of the two",
     "tests send one bad line; fault position and history are unbounded",
     ["katcp/server.py"],
     [("line read loop", "server.KATCPServer._line_read_loop"),
      ("message dispatch", "server.DeviceServerBase.on_message / handle_message")])

prop("C06", "A client survives bad input and handler errors and reconnects",
     "Any exception while parsing or handling a received line is contained: it is logged "
     "and the client keeps reading; a failure to read ends the connection and leads to the "
     "disconnect path, never to re-handling an old line. While the client is running with "
     "automatic reconnection it goes on to reconnect after every disconnect; without it, it stops.",
     ["inputs", "fault_sequences", "histories"],
     "all byte streams and all faults while connecting, reading and handling",
     "tests drop a connection once or twice; fault position and order are unbounded",
     ["katcp/client.py"],
     [("line read loop", "client.DeviceClient._line_read_loop"),
      ("connect loop", "client.DeviceClient._connect_loop")])

prop("C07", "Every client request completes exactly once, by whichever event is first",
     "A request sent by the asynchronous client calls its reply callback (or resolves its "
     "future) exactly once: with the reply, with a failure reply after its timeout, when "
     "the connection is lost, when the client stops, or when the message could not be sent. "
     "When it completes its timeout is cancelled and it is forgotten, so a late reply, "
     "inform or timeout for it is ignored.",
     ["schedules", "fault_sequences", "histories"],
     "all orders of reply, timeout, disconnect, stop and send failure, any number in flight",
     "tests run one order at a time; the guarantee is about every order",
     ["katcp/client.py"],
     [("pending request table", "client.AsyncClient._push_async_request/_pop_async_request"),
      ("timeouts", "client.AsyncClient._do_timeout"),
      ("disconnect/stop flush", "client.AsyncClient._fail_waiting_requests and stop hook")],
     [("pending requests by id and ids by name", "requests waiting for a reply",
       "client.AsyncClient._async_queue, _async_id_stack")])

prop("C08", "Replies and informs are matched to the right pending request",
     "A reply or inform with a message id is delivered only to the pending request with "
     "that id; one without an id only to the oldest pending request of the same name. A "
     "reply removes the pending request and an inform does not; anything that matches no "
     "pending request is treated as unsolicited and disturbs no pending request.",
     ["histories", "inputs", "schedules"],
     "all interleavings of concurrent requests, replies and informs, with and without ids",
     "tests have at most two requests in flight in one fixed order",
     ["katcp/client.py"],
     [("handle_reply / handle_inform", "client.AsyncClient"),
      ("id stack per name", "client.AsyncClient._async_id_stack")])

prop("C09", "Server connection life cycle is paired on every exit",
     "Every accepted client is announced to the device exactly once when it connects and "
     "exactly once when it goes away, on every way its connection can end (remote close, error, "
     "flood disconnect, server stop). After that no state is kept for it and sending to it is "
     "harmless; a client whose buffered output exceeds the configured limit is disconnected.",
     ["fault_sequences", "histories", "schedules"],
     "all ways and moments a connection can end, any number of clients",
     "tests close connections cleanly; the exit paths through errors are not sampled",
     ["katcp/server.py"],
     [("stream handler", "server.KATCPServer._handle_stream / _disconnect_client"),
      ("connection table", "server.KATCPServer._connections"),
      ("flow control", "server.KATCPServer.send_message")])

prop("C10", "Sensor sampling strategies are never leaked or left running",
     "A strategy that is replaced, set to none, belongs to a client that disconnected, or "
     "whose sensor was removed is cancelled exactly then and produces no further updates, "
     "and its observer registration and timers are gone. A request with invalid parameters "
     "leaves the previous strategy in place, and cancelling works at any time, including "
     "before the strategy's first activation.",
     ["histories", "schedules"],
     "all sequences of strategy requests, sensor updates, disconnects and removals",
     "tests set and clear a strategy once; leaks show only on particular histories",
     ["katcp/sampling.py", "katcp/server.py"],
     [("attach/detach/start/cancel", "sampling.SampleStrategy"),
      ("strategy table", "server.DeviceServer._strategies, clear_strategies, request_sensor_sampling")])

prop("C11", "Sampling strategies send exactly the updates their definition asks for",
     "An event strategy reports when status or value differs from what was last reported; a "
     "differential one when the status differs or the value moved by more than the given "
     "difference; the auto strategy on every update; rate-limited variants never report "
     "twice within the shortest period, always report within the longest, and do not lose a "
     "pending change. Invalid parameters (counts, non-numeric or wrong-type sensors, "
     "non-positive or inconsistent periods and differences) are refused.",
     ["histories", "inputs"], "all sequences of readings and timer firings, all parameters",
     "tests feed short sequences with a fixed clock",
     ["katcp/sampling.py"],
     [("update/report predicates", "sampling.SampleEvent, SampleDifferential, SampleEventRate, "
       "SampleDifferentialRate, SamplePeriod, SampleAuto")])

prop("C12", "The strategy tables cover every strategy and agree with each other",
     "Each sampling strategy name in the protocol selects the one strategy class that "
     "implements it, the reverse mapping names it the same way, and what a strategy reports "
     "as its current name and parameters can be used to set it again. An unknown strategy name is "
     "refused with an error.",
     ["inputs", "configurations"], "all strategy names and parameters",
     "tests try most names but never compare the tables as a whole",
     ["katcp/sampling.py", "katcp/server.py"],
     [("tables", "sampling.SampleStrategy.SAMPLING_LOOKUP / _REV and STRATEGY map")])

prop("C13", "Network and strategy state is touched only in its own thread",
     "Bytes are written to a client or server stream only from that object's I/O loop "
     "thread; calls made from another thread are handed over to the loop, and a handler "
     "running in its own thread is given a connection that does so. Sensor updates from "
     "other threads reach sampling strategies only through the I/O loop.",
     ["schedules", "configurations"], "all threads and all public entry points",
     "tests run a few threads; a missing hand-over only shows under rare interleavings",
     ["katcp/server.py", "katcp/client.py", "katcp/sampling.py", "katcp/core.py"],
     [("hand-over", "server.KATCPServer.in_ioloop_thread/call_from_thread, "
       "client.DeviceClient.send_message, core.update_in_ioloop style helpers"),
      ("thread-safe connection", "server.ThreadsafeClientConnection")])

prop("C14", "Sensor readings change atomically and every observer hears of each",
     "Reading a sensor returns the timestamp, status and value of one single update, never "
     "a mixture. Every update is visible before any observer is told of it, every observer "
     "attached at that moment is told exactly once with that reading (as long as no observer "
     "raises), and attaching or detaching observers during the notification is harmless.",
     ["schedules", "histories"], "all interleavings of updates, reads, attach and detach",
     "tests update and read from one thread",
     ["katcp/core.py"],
     [("single reading object", "core.Sensor._current_reading"),
      ("observer snapshot", "core.Sensor.notify")])

prop("C15", "Type, status and timestamp tables agree across protocol versions",
     "Sensor status names and numbers, message type names and symbols, and sensor type names map to "
     "each other one to one in both directions. Timestamps are seconds in v5 and milliseconds in v4 "
     "on every encode and decode path, and the protocol version in force decides which everywhere.",
     ["inputs", "configurations"], "all statuses, types, timestamps and protocol versions",
     "tests use one version per class and sample values",
     ["katcp/core.py", "katcp/kattypes.py", "katcp/server.py", "katcp/inspecting_client.py",
      "katcp/client.py"],
     [("tables", "core.Sensor.STATUSES/STATUS_NAMES/SENSOR_TYPES, core.Message.TYPE_NAMES"),
      ("conversion factors", "core.MS_TO_SEC_FAC, SEC_TO_MS_FAC, TIMESTAMP decode/encode")])

prop("C16", "KATCP types check before encoding and after decoding",
     "Packing a value validates it and encodes it and unpacking decodes it and validates the "
     "result, for the protocol version in force; a missing value takes the default or is refused if "
     "there is none. A text a type cannot decode is refused with ValueError, a value it cannot encode "
     "is refused with an error, and what a type encodes of a value of its kind, the same type decodes "
     "to that value.",
     ["inputs", "configurations"], "all types, values, defaults and protocol versions",
     "tests use a few values per type",
     ["katcp/kattypes.py"],
     [("pack/unpack", "kattypes.KatcpType"), ("per-type codecs", "kattypes.Int .. Struct")])

prop("C17", "Handler decorators enforce the declared parameters and results",
     "A handler with declared parameter types is called only with exactly the declared "
     "arguments, each decoded with its type; too few, too many or undecodable arguments give a failure "
     "reply naming the problem and the handler is not called. Its result is converted with the "
     "declared result types and a result that does not fit is an error, never a malformed reply.",
     ["inputs", "programs"], "all requests, all declared signatures",
     "tests use a few signatures; counts, defaults and repeated parameters combine freely",
     ["katcp/kattypes.py"],
     [("decorators", "kattypes.request, inform, return_reply, unpack_message, make_reply, unpack_types, "
       "pack_types")])

prop("C18", "Handlers are offered only for the protocol the server speaks",
     "A request or inform handler restricted to protocol versions or feature flags is "
     "available exactly when the device's protocol satisfies the restriction, and is neither "
     "listed in help nor callable otherwise. A connecting client is told the version "
     "information of the protocol in force, and message ids are refused when it has none.",
     ["configurations", "programs"], "all protocol versions, flags and handlers",
     "tests use the default flags",
     ["katcp/core.py", "katcp/server.py", "katcp/kattypes.py"],
     [("handler metaclass", "core.DeviceMetaclass"),
      ("protocol flags", "core.ProtocolFlags"),
      ("connect informs", "server.DeviceServer.on_client_connect")])

prop("C19", "Built-in requests report exactly as many informs as they send",
     "The number in the reply to help, client-list, version-list, sensor-list, sensor-value "
     "and timeout-hint requests equals the number of informs sent for that request, every matching "
     "item is reported exactly once, and an unknown name gives a failure reply and no informs.",
     ["inputs", "histories"], "all filters, registered sensors, clients and handlers",
     "tests count on a fixed set of sensors",
     ["katcp/server.py"],
     [("built-in requests", "server.DeviceServer.request_*")])

prop("C20", "The inspecting client's state always tells the truth",
     "The inspecting client announces synced only after a successful inspection on the "
     "current connection; a lost connection ends the synced state before anything else is "
     "announced and the device is inspected again, and it re-inspects after every interface-changed inform. An inspection error never "
     "ends its loop: it retries later with a delay that grows while failures repeat and returns to the initial "
     "delay after a success, until the client is stopped.",
     ["histories", "fault_sequences", "schedules"],
     "all orders of connects, disconnects, interface changes and inspection failures",
     "tests drive a few orders with a fake clock",
     ["katcp/inspecting_client.py"],
     [("state loop", "inspecting_client.InspectingClientAsync._state_loop"),
      ("backoff", "inspecting_client.ExponentialRandomBackoff")])

prop("C21", "Re-inspection reports exactly the difference and forgets removed items",
     "After an inspection the set of added items is exactly what is new or changed, the set "
     "of removed items exactly what is gone or changed, and the index contains what the "
     "device reported. A cached object of a removed or changed item is dropped so the next use builds a "
     "fresh one, and a failed inspection leaves the model as it was.",
     ["histories", "inputs"], "all pairs of device descriptions and inspection failures",
     "tests use a couple of interface changes",
     ["katcp/inspecting_client.py"],
     [("difference", "inspecting_client.InspectingClientAsync._difference, _update_index, inspect")])

prop("C22", "Resource requests obey activity, exclusion and control settings",
     "A request object of a resource sends a request only while the resource is active and "
     "otherwise raises the inactive error; an excluded or uncontrolled request is never "
     "reachable. A reply wrapper reports success exactly when the reply's first argument is ok.",
     ["configurations", "histories"], "all resource specifications, states and requests",
     "tests use one specification",
     ["katcp/resource.py", "katcp/resource_client.py"],
     [("request gating", "resource.KATCPRequest.__call__"),
      ("request filtering", "resource_client.KATCPClientResource._add_requests")])

prop("C23", "Strategies and listeners are restored on every reconnection",
     "A sampling strategy set on a resource's sensor is remembered and applied to the device "
     "whenever the sensor (re)appears or the device reconnects, until dropped or set to none. One "
     "sensor or device that fails does not prevent the others from being restored.",
     ["histories", "fault_sequences"],
     "all sequences of settings, disconnects, sensor removals and failures",
     "tests reconnect once",
     ["katcp/resource_client.py", "katcp/resource.py"],
     [("caches", "resource_client.KATCPClientResource._sensor_strategy_cache, "
       "KATCPClientResourceSensorsManager._strategy_cache")])

prop("C24", "Sensor trees keep their links consistent and propagate every update",
     "In a sensor tree the parent and child links always mirror each other, removing a "
     "sensor removes every link to it and its observer, and a child's update recomputes every ancestor. "
     "An aggregate that declared its children before they exist becomes active only when all are registered, and "
     "deregistering one makes every aggregate that used it wait again. A boolean tree's parent is true exactly when all its children are.",
     ["histories", "programs"], "all sequences of add, remove and update",
     "tests build two or three small trees",
     ["katcp/sensortree.py"],
     [("link maps", "sensortree.GenericSensorTree"), ("aggregation", "sensortree.AggregateSensorTree"),
      ("boolean rule", "sensortree.BooleanSensorTree")])

prop("C25", "Events and states wake exactly the waiters they should",
     "Setting an event resolves every waiter and later waiters at once; clearing it makes "
     "later waiters wait again. Waiting for a state resolves when, and only when, that state is "
     "entered or already holds; invalid states are refused; waiting for any of several futures "
     "resolves with the first and times out otherwise.",
     ["schedules", "histories"], "all orders of set, clear, wait and timeout",
     "tests use single waiters",
     ["katcp/core.py"],
     [("events", "core.AsyncEvent, core.AsyncCallbackEvent, core.AsyncState"),
      ("combinators", "core.until_any, core.until_some, core.future_timeout_manager")])

prop("C26", "The I/O loop manager stops only loops it owns and cannot start twice",
     "Stopping a manager stops and closes the I/O loop only if it is the manager's own, runs "
     "the shutdown work it was given first, and its stop waiters are always released, however stops "
     "overlap; a loop of the user is left running. A manager that is already running in its own thread refuses to be started again.",
     ["schedules", "configurations"], "managed and unmanaged loops, all start/stop orders",
     "tests start and stop once",
     ["katcp/ioloop_manager.py"],
     [("manager", "ioloop_manager.IOLoopManager")])

prop("C27", "Calls moved to an I/O loop return their result or raise their error",
     "A call made through the I/O loop wrapper returns the wrapped call's result or raises "
     "the exception it raised, and waits for it if it is a future; a timeout raises the timeout error. Calling it "
     "from the I/O loop's own thread is refused instead of deadlocking, and attribute and item access on the "
     "wrapper reach the wrapped object.",
     ["programs", "schedules"], "all wrapped callables, results and exceptions",
     "tests wrap one or two functions",
     ["katcp/ioloop_manager.py", "katcp/resource.py", "katcp/resource_client.py"],
     [("wrapper", "ioloop_manager.IOLoopThreadWrapper, ThreadSafeObjectWrapper classes")])

prop("C28", "Message ids are used only with servers that support them",
     "A client puts a message id on a request only when ids are in use: asked for, or by default "
     "exactly when the server announced support; asking for one on a server without support is an error. "
     "Automatically chosen ids are never reused while the client lives, and protocol flags the user preset are "
     "never overridden by what the server announces.",
     ["configurations", "histories", "inputs"], "all protocol flags and requests",
     "tests use one protocol",
     ["katcp/client.py"],
     [("mid choice", "client.DeviceClient._get_mid_and_update_msg, _next_id"),
      ("protocol detection", "client.DeviceClient._set_protocol_from_inform, preset_protocol_flags")])

prop("C29", "Client running, connected and stopped signals always agree with reality",
     "A client signals connected after the stream is open and disconnected whenever it is lost, each once per "
     "transition; stopping it closes the stream, ends its loops and signals stopped, whatever state it was in, and "
     "a failure while connecting or closing never prevents that.",
     ["schedules", "fault_sequences", "histories"],
     "all orders of start, connect failure, disconnect and stop",
     "tests start and stop cleanly",
     ["katcp/client.py"],
     [("life cycle", "client.DeviceClient._install, _connect_loop, _disconnect, _stop")])

prop("C30", "Group requests wait for the stated quorum and tell the truth",
     "A request on a group of clients is sent to every client that has it and its result "
     "maps each client to its own reply. A group wait succeeds exactly when at least the "
     "requested number of clients met the condition, and keeps to its timeout. Every client gets "
     "the request even if another one refuses it at once. A sensor's wait removes the listener it "
     "registered whenever it completes: on success, timeout and error.",
     ["schedules", "inputs", "fault_sequences"], "all quorums, client outcomes and timings",
     "tests use two or three clients",
     ["katcp/resource_client.py", "katcp/resource.py"],
     [("group", "resource_client.ClientGroup, GroupRequest, GroupResults"),
      ("wait", "resource.KATCPSensor.wait, resource_client.ClientGroup.wait")])

prop("C31", "Device log messages reach clients exactly when their level is enabled",
     "A message is sent to clients as a log inform, with level, timestamp, name and text, exactly when its "
     "level is at or above the device's log level; every level name a client may set is accepted and an unknown "
     "one is refused. The Python log levels, KATCP level names and numbers map to each other consistently in both directions.",
     ["inputs", "configurations"], "all log levels and messages",
     "tests use two levels",
     ["katcp/server.py", "katcp/client.py"],
     [("logger", "server.DeviceLogger"), ("log informs", "server.DeviceServer.create_log_inform"),
      ("log-level request", "server.DeviceServer.request_log_level")])

prop("C32", "Server start and stop leave nothing running and nobody waiting",
     "Stopping a server closes its listening socket and every client connection, tells connected clients why, ends the handler "
     "thread if there is one, and signals stopped, even if closing one connection fails. Requests queued for the handler thread are "
     "run in order, and each is released even if its handler raises.",
     ["schedules", "fault_sequences"], "all server configurations, clients and stop moments",
     "tests stop an idle server",
     ["katcp/server.py"],
     [("stop", "server.DeviceServerBase.stop, server.KATCPServer._stop"),
      ("handler thread", "server.MessageHandlerThread")])

prop("C33", "A container and its groups offer exactly what their members have",
     "The requests and sensors a resource container offers are always exactly those its children "
     "have at that moment, under the child's name (aggregates under their own), and the requests of a "
     "group exactly those its clients have, whatever order children connect, change and are added in "
     "and whenever somebody reads in between; a group a user holds stays up to date when other groups "
     "are added. Listing sensors gives exactly those that match the name, strategy and status asked "
     "for, as they are after the refresh that was asked for.",
     ["histories", "inputs"], "all histories of children, their requests and sensors, groups and reads",
     "tests build one container and look once",
     ["katcp/resource_client.py"],
     [("container", "resource_client.KATCPClientResourceContainer._sync_with_children, "
                    "_create_attrdict_from_children, _child_add_requests, _dirty_groups, add_group"),
      ("group", "resource_client.ClientGroup.req, client_updated"),
      ("listing", "resource_client.list_sensors")])

prop("C34", "Sensors hold, check and report exactly what they are given",
     "A new sensor reads the default value and status it was given, or else those of its type (the "
     "lower limit where the type's default lies outside the range given). Setting a value that the "
     "type refuses changes nothing and tells nobody; any other value is kept with the status and "
     "timestamp given, zero included, and every observer is told of it, of an equal one too. What a "
     "sensor formats for a protocol version, reading and parameters, is parsed back to the same for "
     "that version. A client's sensor reads each update and tells each listener registered at that "
     "moment exactly once, in the form it asked for, whatever other listeners raise; the strategy it "
     "is given reaches the device with all its parameters.",
     ["inputs", "histories"], "all types, values, timestamps, statuses and ranges; all histories of "
     "listeners and updates",
     "tests use a few sensors and truthy values",
     ["katcp/core.py", "katcp/resource.py"],
     [("sensor", "core.Sensor.__init__, set_value, set_formatted, format_reading, parse_params"),
      ("client sensor", "resource.KATCPSensor.set, set_value, call_listeners, register_listener, "
                        "set_strategy")])

prop("C35", "A message is refused with a syntax error or can be sent, and compares as a value",
     "A message can be made only with a known type, a name of ASCII letters, digits and dashes that "
     "starts with a letter, and an id of digits or none; anything else is refused with a KATCP syntax "
     "error, and a message that was made holds what it was given and can be serialised. Two messages "
     "are equal exactly when their types, names, ids and arguments are; a copy is equal and shares no "
     "argument list with the original; a message counts as an ok reply exactly when it is a reply "
     "whose first argument is ok.",
     ["inputs"], "all types, names, ids and argument lists",
     "tests use ASCII names and a few messages",
     ["katcp/core.py"],
     [("message", "core.Message.__init__, __bytes__, __eq__, copy, reply_ok, request, reply, inform")])

prop("C36", "Sending to one client never disturbs the others",
     "A message sent to a client is written to that client's stream once, whole, ended by a newline, in "
     "the order of sending and in the loop's thread, and to nobody else; a message to all clients is "
     "written to each that is connected, whatever becomes of the others. A send that fails does not "
     "raise: it closes that client's stream only, of which the device hears once. After a flush before "
     "closing nothing more is written. A function that another thread asks the server to call is called "
     "once, in the loop's thread, and the future it is given has the outcome, an error if the function "
     "raised or the server has no loop any more.",
     ["histories", "fault_sequences"], "all orders of accepting, sending, failing, closing and stopping "
     "over several clients, from either thread",
     "tests use one client, and streams that do not fail",
     ["katcp/server.py"],
     [("sending", "server.KATCPServer.send_message, mass_send_message, flush_on_close, call_from_thread"),
      ("connections", "server.KATCPServer._handle_stream, _disconnect_client, _stream_closed_callback, "
                      "_uninstall; server.ClientConnection, ThreadsafeClientConnection")])

prop("C40", "Values survive a float round trip to the nearest representable number",
     "Decoding an encoded float or timestamp gives back the original number to the precision the format promises.",
     ["inputs"], "all floating point numbers", "the set of floats is too large to sample",
     ["katcp/kattypes.py"], [("codecs", "kattypes.Float, kattypes.Timestamp")])

prop("C41", "Requests and disconnects are acted on within their time bounds",
     "A request times out no earlier and not much later than its timeout; periodic sampling does not drift.",
     ["schedules"], "all loads and clocks", "needs real time under arbitrary load",
     ["katcp/client.py", "katcp/sampling.py"], [("timers", "ioloop.call_later / call_at")])

prop("C42", "Long-running servers and clients do not accumulate memory",
     "Repeated connects, requests and inspections do not make memory grow without bound.",
     ["histories"], "arbitrarily long histories", "tests are short",
     ["katcp/server.py", "katcp/client.py", "katcp/resource_client.py"], [("containers", "all")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
