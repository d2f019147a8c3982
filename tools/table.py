"""The properties, from which properties.jsonl and MANIFEST.json are made."""
PROPS = []
TRUST = ('Holds for every input within the bounds listed in the evidence file; '
         'outside them nothing is claimed. Trusts Z3, the engine\'s models of '
         'Python builtins (cross-checked by replaying solver-chosen inputs of '
         'every harness on the unmodified code) and PyPy. ')


def P(id, title, statement, over, forall, why, files, mech, note='', na=None):
    d = dict(id=id, title=title, statement=statement, over=over.split(),
             forall=forall, why=why, files=files.split(),
             mech=[tuple(m.split(' @ ')) for m in mech], note=TRUST + note)
    if na:
        d['na'] = na
    PROPS.append(d)


P('C01', 'Every message survives its wire form',
  'For every request, reply or inform that can be created, with any name '
  'allowed by the grammar, any message id or none, and any list of argument '
  'values (arbitrary bytes, text, integers, floats, booleans), parsing its '
  'serialised line gives back a message equal to it: same type, name, id and '
  'argument bytes. Replies and informs built for a request carry its name and '
  'id, and a copy of a message equals it without sharing its argument list.',
  'inputs', 'every message type, name, id and list of arguments of arbitrary '
  'bytes or typed values',
  'Unit tests round-trip a handful of literal messages; escaping interacts '
  'with every byte value, position and neighbour, and with empty arguments.',
  'katcp/core.py', ['Message.__bytes__ / escaping @ katcp/core.py Message',
                    'MessageParser @ katcp/core.py MessageParser'])
P('C02', 'A message occupies exactly one line and cannot inject others',
  'Whatever bytes its arguments contain, a serialised message contains no raw '
  'newline, carriage return, NUL, escape or tab byte, starts with its type '
  'symbol, and has exactly one space per argument and no empty argument token. '
  'So messages written back to back are split by a receiver into exactly the '
  'messages that were sent.',
  'inputs', 'every list of arguments of arbitrary bytes, every pair of '
  'consecutive messages',
  'Tests try a few special characters one at a time; injection needs a '
  'particular byte at a particular place among arbitrary others.',
  'katcp/core.py', ['Message.ESCAPE_RE and escape tables @ katcp/core.py'])
P('C03', 'The parser accepts exactly the KATCP line grammar',
  'For every byte string without line ends, the parser returns a message if '
  'and only if the string is a line of the KATCP grammar (type symbol, name, '
  'optional numeric id, blank-separated escaped arguments), and then with the '
  'fields the grammar gives. Every other byte string is refused with a KATCP '
  'syntax error and no other exception, and an accepted line serialises to a '
  'line that parses to the same message.',
  'inputs', 'every byte string without CR and LF up to the bound',
  'The space of hostile lines is unbounded; tests hold a short list of bad '
  'lines, while a peer can send any bytes.',
  'katcp/core.py', ['MessageParser.parse @ katcp/core.py',
                    'MessageParser._parse_arg @ katcp/core.py'])
P('C05', 'Typed values survive encoding and decoding',
  'For each parameter type (integer, float, boolean, string, discrete, '
  'discrete set, LRU state, address, timestamp, timestamp-or-now, strict '
  'timestamp, regular expression, packed struct) and every value of its '
  'domain, decoding the encoded form under the same protocol version gives the '
  'value back. Timestamps are exact to the microsecond in version 5 (seconds) '
  'and to the millisecond in version 4 (milliseconds), so a whole number of '
  'micro- or milliseconds survives unchanged in either direction.',
  'inputs configurations', 'every value of each type, both protocol versions',
  'Tests check a few literals per type; rounding and digit-count boundaries '
  'and Unicode make the exceptional values rare.',
  'katcp/kattypes.py', ['encode/decode of each type @ katcp/kattypes.py',
                        'KatcpType.pack/unpack @ katcp/kattypes.py'],
  'Floats are exact doubles on a dyadic grid with IEEE rounding modelled.')
P('C06', 'Values outside a declared type are refused, both ways',
  'Packing and unpacking accept exactly the values the type declares: within '
  'the minimum and maximum inclusive, members of the discrete set (ignoring '
  'case only when asked), texts matching the pattern, non-negative strict '
  'timestamps. A missing value yields the declared default, or nothing when '
  'optional, and is otherwise refused; malformed texts are refused with a '
  'value error (a fail reply when unpacking a request parameter), never with '
  'another exception or a made-up value.',
  'inputs configurations', 'every value, bound, default/optional setting and '
  'byte string up to the bound for each type',
  'Tests check single in-range and out-of-range literals; boundary equality, '
  'false-like defaults and arbitrary malformed bytes are not covered.',
  'katcp/kattypes.py', ['KatcpType.check and subclasses @ katcp/kattypes.py',
                        'KatcpType.get_default @ katcp/kattypes.py',
                        'Parameter @ katcp/kattypes.py'])
P('C07', 'Handlers get exactly the declared parameters and reply as declared',
  'A handler declared with parameter types is called exactly once, with one '
  'decoded value per declared parameter (extra ones only if the last is '
  'repeatable) in order, when the request matches the declaration, and '
  'otherwise is not called and the request is refused with a fail reply '
  'naming the parameter. Replies declared with types carry the status and one '
  'packed value per declared type in order, a fail reply carries only its '
  'reason, and results that do not match the declaration are refused.',
  'inputs configurations', 'every signature and argument list up to the bound',
  'Tests use fixed signatures; arity, optional/default and repeatable last '
  'parameters combine with every argument count and content.',
  'katcp/kattypes.py', ['unpack_types / pack_types @ katcp/kattypes.py',
                        'request / return_reply / send_reply @ '
                        'katcp/kattypes.py', 'make_reply @ katcp/kattypes.py'])
P('C09', 'Immediate strategies report every reportable update exactly once',
  'A client sampling a sensor with "auto", "event" or "differential" first '
  'gets the current reading, then for every update of the sensor exactly one '
  'update if it is reportable, and none otherwise: "auto" reports every '
  'update, "event" when the status or value differs from what was last '
  'reported, "differential" when the status differs or the value moved by more '
  'than the threshold since the last report. Updates carry the reading that '
  'was set and are in order, also when another thread sets the sensor; they '
  'are then sent from the ioloop. An update made at any moment during the '
  'subscription is not lost: in the end the client knows the latest reading.',
  'histories schedules inputs', 'every sequence of sensor updates, from the '
  'loop or other threads, at every point of the subscription',
  'Tests set one or two values from the loop thread; losses need an update in '
  'the small window of the subscription or particular value sequences.',
  'katcp/sampling.py katcp/core.py',
  ['SampleStrategy.update / attach / start @ katcp/sampling.py',
   'SampleEvent, SampleDifferential @ katcp/sampling.py',
   'Sensor.set / notify @ katcp/core.py'])
P('C10', 'Rate-limited strategies respect periods and lose no final change',
  'With "event-rate" and "differential-rate" no two updates are closer than '
  'the shortest period. A reportable change is sent at once when the shortest '
  'period has passed since the last update, otherwise as soon as it has '
  'passed, so the client always ends up with the final reading; updates are '
  'readings of the sensor in order. An update is sent when the longest period '
  'passes without one, and nothing else is sent without a reportable change.',
  'histories schedules', 'every history of updates, delays, periods and late '
  'timeouts up to the bound',
  'Tests follow one or two hand-written time lines; the coalescing timer and '
  'the period timer interact with each update time and value.',
  'katcp/sampling.py', ['SampleEventRate @ katcp/sampling.py',
                        'SampleDifferentialRate @ katcp/sampling.py'])
P('C11', 'Period sampling reports once per period, on time, without bursts',
  'With "period", the first reading is sent when the strategy starts and one '
  'current reading per period after that, at start + n * period, never early '
  'and never because the sensor was updated. When the ioloop was late the '
  'missed readings are not sent in a burst, and the next one is at most a '
  'period away.',
  'schedules inputs', 'every period and every lateness of each timeout',
  'Tests use one period and a punctual clock.',
  'katcp/sampling.py', ['SamplePeriod @ katcp/sampling.py'])
P('C12', 'A cancelled strategy sends nothing more; others are unaffected',
  'Once a sampling strategy has been cancelled, at any point of its life, from '
  'the loop or another thread, with timeouts or queued updates pending, it '
  'sends no more updates whatever happens to the sensor, leaves no timeout '
  'behind and is detached from the sensor. Other strategies on the same '
  'sensor are not affected.',
  'histories schedules', 'every cancellation point among updates, timeouts and '
  'queued callbacks',
  'Tests cancel a quiet strategy; the failing schedules cancel with a callback '
  'or timeout in flight.',
  'katcp/sampling.py', ['SampleStrategy.cancel / detach @ katcp/sampling.py',
                        'cancel_timeouts @ katcp/sampling.py'])
P('C13', 'Sampling strategy parameters are validated and reported back',
  'Setting a strategy is accepted exactly when its name is known and its '
  'parameters are right for it and for the sensor type (number of parameters, '
  'positive threshold or period, 0 <= shortest <= longest, differential '
  'strategies only on numeric sensors), and is otherwise refused with a value '
  'error, both for numbers and their wire texts. The accepted strategy reports '
  'back the same name and parameter values.',
  'inputs configurations', 'every name, parameter count, parameter value and '
  'sensor type within the bound',
  'Tests try one wrong value per strategy.',
  'katcp/sampling.py', ['SampleStrategy.get_strategy @ katcp/sampling.py',
                        'get_sampling_formatted @ katcp/sampling.py'])
P('C04', 'The server reads every line once, in order, and survives bad input',
  'Whatever bytes a client sends and however they are cut into packets, each '
  'non-empty line (ended by CR or LF) is handled exactly once, in order: a '
  'well-formed one is dispatched unchanged, also when its arguments are not '
  'UTF-8, a malformed one is answered with a #log error inform. Neither '
  'malformed input, nor a failing handler, nor a failed read stops the server '
  'from reading and answering the next request on an open connection, makes '
  'it process a message twice or affects other connections.',
  'inputs faults schedules', 'every byte string and packet boundary within '
  'the bound, faults of handlers and reads',
  'Tests send complete well-formed lines and two malformed ones.',
  'katcp/server.py katcp/core.py',
  ['KATCPServer._line_read_loop @ katcp/server.py',
   'MessageParser.parse @ katcp/core.py',
   'DeviceServerBase.handle_message @ katcp/server.py'])
P('C08', 'Protocol versions and flags decide what a device offers',
  'A version string N.N or N.N-FLAGS parses to exactly those numbers and '
  'flags, anything else to "no version"; printing and parsing protocol flags '
  'gives equal flags. Message ids before version 5, and timeout hints or bulk '
  'sampling before 5.1, are refused. A device offers (answers and documents '
  'in ?help) exactly the handlers whose required version and flags its '
  'protocol has.',
  'inputs configurations', 'every version string, version and flag set within '
  'the bound',
  'Tests check a handful of version strings and two device classes.',
  'katcp/core.py katcp/kattypes.py katcp/server.py',
  ['ProtocolFlags @ katcp/core.py',
   'DeviceServerMetaclass.check_protocol @ katcp/core.py',
   'minimum_katcp_version, has_katcp_protocol_flags @ katcp/kattypes.py'])
P('C16', 'A sensor reading is one consistent update, seen by every observer',
  'Reading a sensor gives the (timestamp, status, value) of the last accepted '
  'update as a whole, never a mixture of two, also when another thread sets '
  'it meanwhile. Every attached observer is called once per accepted update, '
  'in order, with that reading; detached ones are not. Badly formed values, '
  'statuses or timestamps (and discrete values outside the set) are refused '
  'and change nothing. A formatted reading set on another sensor of the type '
  'gives the same reading in KATCP 4 and 5; parameters format and parse back; '
  'the initial value lies within the limits.',
  'inputs histories schedules', 'every sequence of operations, value and '
  'thread switch within the bound',
  'Tests set single values in one thread.',
  'katcp/core.py katcp/kattypes.py',
  ['Sensor.set / set_value / set_formatted / read / notify @ katcp/core.py',
   'Sensor.parse_params @ katcp/core.py'])
P('C17', 'Every request gets exactly one reply, with its name and id',
  'For each request received on an open connection the server sends exactly '
  'one reply, to that client, with the name and message id of the request, '
  'after the informs of the request (which carry the id too): the reply the '
  'handler returned, directly or through a future, or sent later after '
  'AsyncReply; "fail" with the reason if it raised FailReply; "fail" with a '
  'description if it raised anything else or produced something that is no '
  'reply to this request, or if arguments or results do not fit a declared '
  'signature; "invalid" if the request is unknown. Informs and replies from '
  'clients are not answered. The same holds with a handler thread.',
  'inputs faults schedules', 'every outcome of the handler, message id, '
  'argument byte and (with a handler thread) thread switch within the bound',
  'Tests cover each kind of handler once, with well-formed results.',
  'katcp/server.py katcp/kattypes.py',
  ['DeviceServerBase.handle_request @ katcp/server.py',
   'MessageHandlerThread.run @ katcp/server.py',
   'request, return_reply @ katcp/kattypes.py'])
P('C18', 'Requests of a connection are served one after the other',
  'The requests of one connection are started in the order received, each '
  'only after the one before it was answered, unless that one is marked '
  'concurrent or gave up its turn with AsyncReply; those after it then '
  'proceed. Every request is eventually answered once its handler finishes, '
  'and a waiting connection does not hold up other connections.',
  'schedules histories', 'every mix of synchronous, slow, concurrent and '
  'asynchronous requests and every completion order within the bound',
  'Tests use one slow and one fast request.',
  'katcp/server.py katcp/kattypes.py',
  ['KATCPServer._line_read_loop @ katcp/server.py',
   'DeviceServerBase.handle_request @ katcp/server.py',
   'concurrent_reply @ katcp/kattypes.py'])
P('C19', 'A request connection sends informs then one reply, and no more',
  'Through the request object given to a handler, informs and a reply are '
  'sent in the order made, with the name and message id of the request and '
  'the arguments given (text, bytes, integers, booleans). After the reply '
  'any further inform or reply is refused with an error and nothing is sent; '
  'a reply to another request is refused. make_reply sends nothing.',
  'histories inputs', 'every sequence of operations and argument within the '
  'bound', 'Tests do one reply after another once.',
  'katcp/server.py katcp/core.py',
  ['ClientRequestConnection @ katcp/server.py',
   'ClientConnection.reply / inform @ katcp/server.py',
   'Message.reply_to_request / reply_inform @ katcp/core.py'])
P('C20', 'Connections start, end and fail independently and exactly once',
  'A new client first receives the version informs of the protocol. However a '
  'connection ends (closed by the client, connection error, failed write, '
  'disconnected by the device, server stop), on_client_disconnect is called '
  'exactly once for it and the connection is closed, even if that handler '
  'fails or never finishes; a client disconnected by the server is sent '
  '#disconnect with the reason as its last message. Nothing is sent '
  'afterwards, its sampling strategies stop, and other clients stay connected '
  'and served; ?client-list names exactly the connected clients.',
  'faults histories schedules', 'every sequence of connection events and '
  'faults, with any progress of the ioloop in between, within the bound',
  'Tests disconnect one quiet client.',
  'katcp/server.py',
  ['KATCPServer._handle_stream / _disconnect_client / '
   '_stream_closed_callback / _uninstall @ katcp/server.py',
   'DeviceServer.on_client_connect / on_client_disconnect @ katcp/server.py'])
P('C21', 'Listing requests select, describe and count correctly',
  '?sensor-list and ?sensor-value send one inform per selected sensor, sorted '
  'by name - all sensors, the one named, or those matching a /regular '
  'expression/ - and reply with their number; an unknown name or a broken '
  'expression is a failure without informs, an expression that matches '
  'nothing is not. The informs have the name, description, units, type and '
  'parameters, or the timestamp, status and value in the format of the '
  'protocol version. Removed sensors are not listed. ?help, '
  '?request-timeout-hint and ?version-list likewise list all or the named '
  'item and count them.',
  'inputs configurations', 'every name within the bound, patterns, versions',
  'Tests query one device with two or three names.',
  'katcp/server.py',
  ['request_sensor_list / request_sensor_value / construct_name_filter @ '
   'katcp/server.py', 'request_help / request_request_timeout_hint / '
   'request_version_list @ katcp/server.py'])
P('C22', '?sensor-sampling sets and reports each client\'s strategies',
  'An accepted ?sensor-sampling request replaces exactly the strategies of '
  'the named sensors for the requesting client, sends their first update '
  'before the reply, and a later query reports the strategy and parameters '
  'that were set (periods in the unit of the protocol version). A request '
  'that names an unknown sensor or strategy, has unsuitable parameters, or is '
  'not allowed by the version and flags fails and changes nothing. Clearing '
  'sets all of that client\'s strategies to none. Updates go to the clients '
  'that asked for them and no other, and stop when the sensor is removed or '
  'the client leaves.',
  'histories inputs', 'every sequence of setting, querying, bulk and clearing '
  'requests, and of sensor and connection events, within the bound',
  'Tests set one strategy per sensor and query it.',
  'katcp/server.py katcp/sampling.py',
  ['_handle_sensor_sampling / _handle_bulk_set_sensor_sampling @ '
   'katcp/server.py', 'clear_strategies / remove_sensor @ katcp/server.py'])
P('C23', 'Logging informs follow the level set',
  '?log-level sets each of the eight levels and always reports the level in '
  'force; an unknown name fails and changes nothing. A record is sent as a '
  '#log inform to every client exactly if its level is at least the level in '
  'force, with its level, logger name, text and time in the unit of the '
  'protocol version, and is always passed to the Python logger, whose level '
  'is set to match.',
  'inputs histories', 'every level name within the bound, pairs of settings, '
  'timestamps',
  'Tests set two levels.',
  'katcp/server.py', ['DeviceLogger @ katcp/server.py',
                      'request_log_level / create_log_inform @ '
                      'katcp/server.py'])
P('C34', 'Informs sent from any thread reach each client once, in order',
  'An inform sent to all clients or to one, from the ioloop thread or any '
  'other thread, is received exactly once and in the order sent by every '
  'client concerned that is still connected, whatever happens to other '
  'clients; only the ioloop thread touches the connections, and the futures '
  'returned resolve.',
  'schedules faults', 'every thread switch within the bound and a failure of '
  'one client',
  'Tests send from one thread to healthy clients.',
  'katcp/server.py',
  ['mass_send_message / call_from_thread @ katcp/server.py',
   'ThreadsafeClientConnection @ katcp/server.py'])
P('C24', 'Every request gets exactly one reply callback',
  'Every request made with callback_request or future_request of an async '
  'client is answered exactly once: by the first reply that belongs to it, or '
  'else by a fail reply when its timeout expires, the connection is lost, the '
  'client is stopped or the request could not be sent. Replies and informs '
  'with an id belong to the pending request with that id, those without to '
  'the first pending request of that name sent without one; informs arrive in '
  'order, before the reply, and never at another request; everything else '
  'goes to the default handlers. A failing callback or one that makes '
  'requests, disconnects or stops disturbs no other request.',
  'histories schedules faults', 'every sequence of replies, informs, timeouts, '
  'disconnections and stops within the bound',
  'Tests cover one cause at a time with one pending request; lost or doubled '
  'callbacks need combinations.',
  'katcp/client.py',
  ['AsyncClient.callback_request / handle_reply / handle_inform @ '
   'katcp/client.py', '_handle_timeout / _fail_waiting_requests @ '
   'katcp/client.py'],
  'User-supplied ids are assumed to differ from every other pending id.')
P('C25', 'Message ids are fresh and only sent to servers that support them',
  'A client assigns an id to a request exactly if asked to or if the server '
  'supports ids; ids it assigns are never repeated during its life, across '
  'reconnections and restarts; an id given by the user is sent unchanged. A '
  'request with an id for a server without ids is not sent, and that is '
  'reported.',
  'inputs histories', 'every sequence of requests within the bound by every '
  'interface',
  'Tests check single requests.',
  'katcp/client.py', ['_get_mid_and_update_msg / send_request @ '
                      'katcp/client.py'])
P('C26', 'The client follows the protocol its server announces',
  'The protocol is unknown until the server sends #version-connect '
  'katcp-protocol (or the version 4 informs #version or #build-state), then '
  'it is what was announced and until_protocol resolves; a preset protocol '
  'is never changed; an announcement that contradicts a detected one '
  'disconnects the client for good; an invalid one is ignored. Ids and time '
  'units follow the protocol, and #version-connect informs are recorded.',
  'histories inputs', 'every sequence of version informs within the bound',
  'Tests announce one version.',
  'katcp/client.py katcp/core.py',
  ['inform_version_connect / _set_protocol_from_inform @ katcp/client.py',
   'ProtocolFlags.parse_version @ katcp/core.py'])
P('C27', 'A client keeps one connection, reads every line and stops cleanly',
  'A started client connects; while it runs with auto_reconnect it tries '
  'again the reconnect delay after each failed attempt or lost connection, '
  'never earlier, with at most one attempt or connection at a time. '
  'is_connected() and alternating notify_connected() calls tell the state. '
  'Every good line is handled once and in order, bad lines and failing '
  'handlers do not end the connection. After stop() nothing stays or becomes '
  'open, no further attempt is made and until_stopped() resolves.',
  'histories faults', 'every sequence of connection events, lines, errors and '
  'times within the bound',
  'Tests connect to a working server.',
  'katcp/client.py', ['_connect / _connect_loop @ katcp/client.py',
                      '_line_read_loop / _stream_closed_callback @ '
                      'katcp/client.py', 'stop @ katcp/client.py'])
P('C35', 'Calls from other threads run once in the ioloop and return its result',
  'Methods of a thread-safe client and of thread-safe wrapped objects called '
  'from another thread are run exactly once, in the ioloop thread, with their '
  'arguments; the caller gets the result or the exception, also of a future '
  'returned, or a timeout error after the timeout; callbacks run in the ioloop '
  'thread; a wrapped object refuses calls from the ioloop thread instead of '
  'deadlocking.',
  'schedules', 'every point at which the ioloop thread runs, within the bound, '
  'and every outcome of the call',
  'Tests run one schedule, decided by the machine.',
  'katcp/client.py katcp/ioloop_manager.py',
  ['enable_thread_safety / blocking_request @ katcp/client.py',
   'IOLoopThreadWrapper @ katcp/ioloop_manager.py'])
P('C28', 'Waiters are woken exactly when their condition is met',
  'A future from AsyncState.until_state/until_state_in or AsyncEvent.until_set '
  'resolves, once, as soon as the state or flag has the wanted value at the '
  'call or is set to it later, even if it changes again at once, and only '
  'then; or it fails with TimeoutError when its timeout expires first. '
  'until_any and until_some resolve with the first one or k results or the '
  'first error, without disturbing other waiters on the same futures; '
  'future_timeout_manager limits the total time. Event callbacks are told each '
  'change.',
  'histories schedules', 'every sequence of waits, changes and times within '
  'the bound, several waiters',
  'Tests use a single waiter; lost wake-ups need several.',
  'katcp/core.py', ['AsyncEvent / AsyncCallbackEvent / AsyncState @ '
                    'katcp/core.py', 'until_any / until_some @ katcp/core.py'])
P('C30', 'Retry delays grow exponentially within their limits',
  'Each delay of an ExponentialRandomBackoff is at least the non-random '
  'fraction of, and at most, the base delay, which is the initial delay after '
  'creation or success() and grows by the factor, up to the maximum, with '
  'each failed(); an invalid parameter never makes failed() raise.',
  'inputs histories', 'every random number and sequence of outcomes within '
  'the bound',
  'Tests fix the random number.',
  'katcp/inspecting_client.py', ['ExponentialRandomBackoff @ '
                                 'katcp/inspecting_client.py'])
P('C31', 'A boolean sensor tree is always the AND of its leaves',
  'After any sequence of adding and removing links and setting leaves, each '
  'sensor with children is true exactly if all its children are, one that '
  'lost its last child is true, and other sensors are never changed; a sensor '
  'is in the tree exactly while it has a link; only boolean sensors are '
  'accepted, and removing a link that does not exist changes nothing.',
  'histories inputs', 'every sequence of operations and values within the '
  'bound, on acyclic trees',
  'Tests walk through one history.',
  'katcp/sensortree.py', ['BooleanSensorTree @ katcp/sensortree.py',
                          'GenericSensorTree @ katcp/sensortree.py'])
P('C32', 'Aggregate sensors follow exactly their registered children',
  'An aggregate has the value its rule gives for its current children '
  'whenever all of them are available: from add(), or from the moment the '
  'last one named in add_delayed() is registered, until one is deregistered '
  'or the rule is removed; it is not updated meanwhile, and resumes when the '
  'name is registered again, with the sensor registered then. At most one '
  'rule per aggregate and one sensor per name.',
  'histories inputs', 'every sequence of operations and values within the '
  'bound',
  'Tests walk through one history with two children.',
  'katcp/sensortree.py', ['AggregateSensorTree @ katcp/sensortree.py'])
P('C29', 'The inspecting client models the interface of its device',
  'After a successful inspection the requests and sensors known to the '
  'inspecting client are exactly those of the device, the request and sensor '
  'objects it returns describe them as they are now, and the changes it '
  'reports are exactly the names added, removed, or (in both sets) changed '
  'since the last report. An inspection that fails at any point changes '
  'nothing, so nothing is lost from the next report. Looking up one name asks '
  'about that name only, gives None if the device does not know it, and '
  'leaves everything else alone.',
  'inputs faults histories', 'every pair of interfaces, descriptions and '
  'point and kind of failure within the bound',
  'Tests inspect one server, without change or failure in between.',
  'katcp/inspecting_client.py',
  ['inspect / inspect_requests / inspect_sensors @ '
   'katcp/inspecting_client.py',
   '_update_index / _difference @ katcp/inspecting_client.py',
   'future_get_request / future_get_sensor @ katcp/inspecting_client.py'])
P('C33', 'The inspecting client resynchronises after every change or failure',
  'When everything has been processed, a client in the synced state has a '
  'model of the device as it is since the last announced change or the last '
  'connection, and its user was told all the changes that led to it. Whatever '
  'happened before (refused or unanswered requests, changes at any time, lost '
  'connections, slow state callbacks), once the device answers the client '
  'gets synced. Failures in a row are retried after growing delays that '
  'restart after a success. Data is only synced while connected, and after '
  'stop() the client ends up disconnected and asks nothing.',
  'histories faults schedules', 'every sequence of events and times within '
  'the bound',
  'Tests cover single events; lost changes need a particular order.',
  'katcp/inspecting_client.py',
  ['_state_loop @ katcp/inspecting_client.py',
   '_cb_connection_state / _cb_inform_interface_change @ '
   'katcp/inspecting_client.py'])
P('C36', 'Sensor updates received are applied once each and in order',
  'Every well-formed #sensor-status update received by an inspecting client is '
  'applied to the sensor object that its users get, once and in the order '
  'received, also while the sensor is still unknown or being looked up, so '
  'that the object ends up with the last one. A malformed update affects no '
  'other sensor, no later update and no other handler of the inform.',
  'histories schedules inputs', 'every sequence of updates, answers and loop '
  'iterations within the bound, every value and malformation',
  'Tests send one update at a time to a known sensor.',
  'katcp/inspecting_client.py',
  ['update_sensor / _cb_inform_sensor_status @ katcp/inspecting_client.py',
   '_InformHookDeviceClient.handle_inform @ katcp/inspecting_client.py'])
P('C37', 'Resources offer what their devices offer, also in containers and groups',
  'Whenever a resource is synced its sensors, and its requests as far as '
  'allowed by its specification, are those of the device, described as they '
  'are; its state is disconnected without a connection and syncing until '
  'synced. Requests of an inactive resource fail, others are sent once as '
  'called and give the reply, or fail when none came within the timeout given, '
  'or suggested by the device. A container has the sensors and requests of all '
  'its children under prefixed names, a group the requests of any member, '
  'whichever is looked at first; a group request is made once to each member '
  'that has it and succeeds if it does for all. Strategies are set for all '
  'members of a group. Names with - work like any other. After stop() nothing stays connected.',
  'inputs histories', 'every pair of interfaces, access rules and order of '
  'access within the bound',
  'Tests look at one fixed interface with names that need no escaping.',
  'katcp/resource_client.py katcp/resource.py',
  ['KATCPClientResource._update_model @ katcp/resource_client.py',
   'KATCPClientResourceContainer @ katcp/resource_client.py',
   'ClientGroup / GroupRequest @ katcp/resource_client.py'])
P('C38', 'Sampling strategies and listeners outlive reconnection and changes',
  'Once a resource is synced, the strategy in force on the device for each '
  'sensor is the one last set by the user, by resource or by sensor object, '
  'before or after the sensor existed, whatever happened since (connection '
  'lost, sensor removed, added or changed, strategies being reapplied just '
  'then); one that was dropped is not applied again, and none is set unasked. '
  'A listener set for a sensor is told of the updates of the sensor there is.',
  'histories schedules faults', 'every sequence of operations and degree of '
  'progress of the device in between, within the bound',
  'Tests reapply one strategy after one reconnection.',
  'katcp/resource_client.py',
  ['set_sampling_strategy / _add_sensors @ katcp/resource_client.py',
   'KATCPClientResourceSensorsManager @ katcp/resource_client.py'])
P('C39', 'Waiting for a sensor or a quorum ends exactly when it should',
  'Waiting for a sensor ends as soon as a reading, from the current one on, '
  'meets the condition, once, or with the timeout (also one of zero), and '
  'leaves no listener behind. Waiting in a group ends when all clients meet the condition, or '
  'the grace period after the quorum or initial timeout is over; the result '
  'tells which clients met it and is true exactly if the quorum did.',
  'inputs schedules', 'every value and time of the updates within the bound',
  'Tests sample a few timings.',
  'katcp/resource.py katcp/resource_client.py katcp/core.py',
  ['KATCPSensor.wait / KATCPResource.wait @ katcp/resource.py',
   'ClientGroup.wait @ katcp/resource_client.py',
   'until_some @ katcp/core.py'])
P('C40', 'Sensors of a resource are listed, read and listened to as they are',
  'Listing the sensors of a resource or container gives exactly those whose '
  'name or python identifier matches the filter, that have a strategy if '
  'asked for, and whose status is among those asked for, in order, with the '
  'names, descriptions, strategies and last (or, refreshed, the present) '
  'readings of the sensors. Asking for the reading, value or status of a '
  'sensor asks its device once and gives its answer, or fails with '
  'KATCPSensorError and changes nothing. Each update is told exactly once to '
  'each listener registered at the time, as reading or as values, in order, '
  'even if another listener fails.',
  'inputs histories faults', 'every combination of filters, every value and '
  'answer, every sequence of registrations and updates within the bound',
  'Tests list one set of sensors and poll a device that always answers.',
  'katcp/resource_client.py katcp/resource.py',
  ['list_sensors @ katcp/resource_client.py',
   'KATCPSensor @ katcp/resource.py',
   'KATCPClientResourceSensorsManager.poll_sensor @ '
   'katcp/resource_client.py'])
P('C41', 'Resources can be used from other threads without losing changes',
  'Everything reached through the thread-safe wrapper of a resource or '
  'container (children, groups, their members, sensors, requests) is the '
  'thing of that name, wrapped as well; its methods are called once in the '
  'ioloop thread and give their result, or fail within the timeout. Looking '
  'at the requests or sensors of a container or group from another thread, '
  'while the ioloop thread changes them at any point, does not fail, and once '
  'the change is done they are all as the devices are.',
  'schedules inputs', 'every line at which the other thread may run, every '
  'operation and value within the bound',
  'Races need a switch between two particular lines.',
  'katcp/resource_client.py katcp/ioloop_manager.py katcp/object_proxies.py',
  ['ThreadSafeKATCPClientResourceWrapper @ katcp/resource_client.py',
   'KATCPClientResourceContainer._update_from_children @ '
   'katcp/resource_client.py',
   'ClientGroup.req @ katcp/resource_client.py',
   'IOLoopThreadWrapper @ katcp/ioloop_manager.py'])
P('C42', 'Sync monitors tell every change of a resource, ending with the truth',
  'A monitor of a resource or container calls back with False first, then '
  'alternately with True and False, and when everything has been processed '
  'the last value is whether it is synced, whatever happened in between; once '
  'told to end it calls back no more and finishes.',
  'histories schedules', 'every sequence of events and degree of progress of '
  'the ioloop in between, within the bound',
  'Tests follow one connection up and down at rest.',
  'katcp/resource_client.py katcp/core.py',
  ['monitor_resource_sync_state @ katcp/resource_client.py',
   'until_not_synced / until_synced @ katcp/resource_client.py'])
P('C43', 'A device halts or restarts on request, answering first',
  '?halt is answered with ok, and only then the device stops: every client is '
  'sent #disconnect as its last message, all connections are closed with '
  'on_client_disconnect called once for each, strategies end, the device no '
  'longer listens or runs, and a handler thread ends. ?restart is answered '
  'with ok and hands the device to the registered queue exactly once (or '
  'fails if there is none), while everybody is served on. Requests before it '
  'are answered, in order. A stopped device can be started again and serves '
  'new clients.',
  'histories schedules', 'every concurrency option, what other clients do, '
  'and line at which the threads switch, within the bound',
  'Tests halt or restart one idle device.',
  'katcp/server.py',
  ['request_halt / request_restart / set_restart_queue @ katcp/server.py',
   'KATCPServer.start / stop / _uninstall @ katcp/server.py',
   'MessageHandlerThread.run / start / stop @ katcp/server.py'])
P('C44', 'A managed ioloop runs once at a time and stops in order',
  'An IOLoopManager that manages its ioloop runs it in exactly one thread at a '
  'time, from start() until stop(): starting it while it runs is refused and '
  'disturbs nothing. stop() runs its callback in the ioloop, then what that '
  'scheduled, and then ends and closes the loop and its thread (if several '
  'stops are made, at least the first one\'s callback is run, each at most '
  'once); the future it returns resolves, also when the callback fails or the '
  'loop has stopped already. start(timeout) tells whether it runs; once '
  'stopped it can be started again with a new loop. An ioloop that is not '
  'managed is never started, stopped or closed; stop only runs the callback.',
  'histories schedules', 'every history of starts and stops, and point at '
  'which the threads switch, within the bound',
  'Tests start and stop one manager, in an order the thread switches hardly '
  'vary.',
  'katcp/ioloop_manager.py',
  ['IOLoopManager.start / stop / _run_managed_ioloop @ katcp/ioloop_manager.py'],
  'Starting while a stop is in progress is outside the claim. ')
P('C45', 'Devices and clients run in a thread of their own until stopped',
  'A device or client that is not given an ioloop runs in a thread of its own '
  'from start() until stop(); starting it while it runs is refused and '
  'disturbs nothing. While it runs, a device serves clients and a client '
  'connects, is answered, and tells other threads that wait for it whether it '
  'runs, is connected, disconnected or has protocol information; '
  'sync_with_ioloop waits for what was scheduled before. Only the ioloop '
  'thread writes to connections. stop() from another thread leaves nothing '
  'behind: it is not running, it does not listen, every connection is closed '
  '(a device tells its clients first), each client that joined has left, and '
  'every thread has ended, so join() returns. Stopping again is harmless, and '
  'it can be started again.',
  'histories schedules', 'every history of starts, stops, joins, waits, '
  'requests, connections and hang-ups, and point at which the threads switch, '
  'within the bound',
  'Tests start and stop devices and clients once, on real sockets, in an order '
  'the thread switches hardly vary.',
  'katcp/server.py katcp/client.py katcp/ioloop_manager.py',
  ['KATCPServer.start / stop / join @ katcp/server.py KATCPServer',
   'DeviceClient.start / stop / join @ katcp/client.py DeviceClient',
   'IOLoopManager @ katcp/ioloop_manager.py'],
  'Starting while a stop is in progress, and auto_reconnect=False, are '
  'outside the claim. ')
