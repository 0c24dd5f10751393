P('C15', 'A malformed tor event is ignored as a whole and never stops the collector',
  '''A tor event is counted, or remembered, only when all the fields that matter to it have been checked: it has the right number of
  fields (positional events), or only well-formed Key=Value fields without repetition (tagged events); every mandatory field is present; every number,
  flag, time and address that is used is one (a flag is 0 or 1, a time is a finite number) and lies within the bounds of its field. An event that fails any of this
  changes no counter and no remembered state at all, and raises no exception: fields are only read where they are known to be valid,
  conversions that may fail come before the first change. Events that satisfy the checks are not refused by them.''',
  'inputs', 'all events with any fields, in any order, missing, repeated or malformed',
  'The tests parse a few tagged events; no test sends a malformed event to the collector.',
  'privcount/data_collector.py privcount/tagged_event.py', [('Aggregator.handle_event, the are_..._fields_valid methods and the handlers', 'privcount/data_collector.py'), ('parse_tagged_event, is_..._valid, get_..._value', 'privcount/tagged_event.py')],
  S + 'guarded evaluation of all handlers with the field checks followed: which checks are known to have passed at every read, count and change; path facts of every answer of a field check', 'Text fields need no check to be read as text.')
P('C16', 'Each counter is fed by exactly the tor events listed for it, once per event',
  '''The data collector asks tor for the events the counter events table lists for the counters of a round. For every counter of the
  table: the handler of each listed event increments it for some observation (unless its name describes an impossible one), the
  handlers of other events never do, and one event never increments it twice. (Inter-stream times and the client counters, which are
  counted per stream or per client when a circuit ends or a window rotates, are fed by the events that collect them.) The traffic model
  events are passed, whole and once, to the traffic model. Nothing but event handling and the traffic model increments counters.''',
  'inputs configurations', 'all events and all 5,326 counters of the table',
  'The tests exercise the counter table and a few helpers; no test sends an event through its handler and looks at the counters.',
  'privcount/data_collector.py privcount/counter.py', [('Aggregator.handle_event and the _handle and _increment methods', 'privcount/data_collector.py'), ('PRIVCOUNT_COUNTER_EVENTS', 'privcount/counter.py')],
  S + 'guarded evaluation of all handlers: the constant name and exact condition of each increment, compared with the table', 'Tor sends the documented fields.')
P('C32', 'A counter is incremented exactly when the observation is what its name says',
  '''A counter is incremented by its event if and only if the observation satisfies every word of the counter's name as defined in
  doc/CounterDefinitions.markdown: position (Origin, Entry, Mid, End, SingleHop = Entry and End, Exit, Dir, HSDir, Intro, Rend), onion
  service version and role, Active (not an onion service circuit of unknown version, and at least 8 cells, or always for Exit, Dir, HSDir), Success or
  Failure, stream classes (Web 80 and 443; Interactive 22, 194, 994, 6660-6670, 6679, 6697, 7000; P2P 1214, 4661-4666, 6346-6429, 6699,
  6881-6999, 45682, 51413; OtherPort otherwise), Initial or Subsequent streams, address and host types, domain matches, client or relay
  connections, country, AS and shared-address words, and HSDir store and fetch words. A field is what its text stands for. Events with invalid fields count nowhere.''',
  'inputs configurations', 'all field values of all events and all counters with a meaning outside the traffic model (5,313)',
  'The conditions are spread over helpers that build counter names; no test compares what is counted with what the name says.',
  'privcount/data_collector.py', [('_handle_stream_event, _handle_circuit_close_event, _handle_connection_close_event, _handle_hsdir_store_event, _handle_hsdir_fetch_event', 'privcount/data_collector.py')],
  S + 'guarded evaluation of all handlers, and equivalence of each counter condition with its name over all consistent truth assignments', 'Assumptions about which fields tor sends together are in pcheck/meaning.py.')
P('C33', 'Each increment adds the observed quantity that the counter name states',
  '''For every increment of a counter, the bin and the amount are those its name states, of the observation that caused it: a Count adds one (or
  the bytes, cells or circuits it names) to the single bin; a Histogram adds one to the bin of the named quantity; inbound and outbound
  are never swapped, and totals are their sums; ratios are log2(outbound/inbound), 0 for no traffic, and beyond 100 in size if only one side
  is zero; lifetimes and delays are end minus start; inter-stream times are the differences of neighbours in the sorted list of
  creation times; a CountList adds to the bin of the matching list. The value of a field is the one its text stands for.''',
  'inputs', 'all field values of all events and all counters with a meaning outside the traffic model',
  'No test looks at the amounts that the handlers add.',
  'privcount/data_collector.py', [('arguments of every SecureCounters.increment call', 'privcount/data_collector.py'), ('_encode_ratio, _compute_interstream_creation_times', 'privcount/data_collector.py')],
  S + 'guarded evaluation of all handlers: symbolic terms of each bin and amount compared with the name', 'Bins themselves are checked by C17.')
P('C34', 'What is remembered between events is complete, and forgotten once counted',
  '''Between events the data collector remembers only: for each open exit circuit, how many streams of each class with data it carried and when
  they were created; for the current and previous rotation window, each client address, whether it was active, and its numbers of active
  and inactive circuits. Each stream and each client circuit changes this state exactly once, in the class or window it belongs to (the
  previous window too if the circuit was created before it rotated); a circuit is forgotten when it closes, after it was counted; at each
  rotation the clients of the previous window are counted, then replaced by those of the current one, which starts empty.''',
  'inputs histories', 'all sequences of stream and circuit events and rotations',
  'No test sends two events in a row; what one leaves behind for another is never looked at.',
  'privcount/data_collector.py', [('circ_info, cli_ips_current, cli_ips_previous', 'privcount/data_collector.py'), ('_do_rotate', 'privcount/data_collector.py')],
  S + 'guarded evaluation of all handlers: every change of the kept state with its exact condition, and its order with the counting', 'Python containers are as documented.')
P('C01', 'Only a peer that proves knowledge of the shared secret is ever served',
  '''A node acts on messages from a peer (status, start, stop or check-in commands, in either role) only after that
  peer has completed the whole challenge-response handshake on the same connection. A message that arrives before, or
  a failed handshake, ends the connection with no other effect.''',
  'inputs schedules histories', 'every sequence of lines received on a connection, in every handshake state, in both roles',
  'No test instantiates a protocol object; the connection code is only compiled by the tests.',
  'privcount/protocol.py', [('PrivCountProtocol.process_event handshake gate', 'privcount/protocol.py'), ('handle_handshake_event', 'privcount/protocol.py')],
  S + 'typestate of the authentication flag on every callback', 'Twisted delivers lines one at a time.',
  observe=['factory calls set_client_status / do_start / do_stop / do_checkin'])
P('C02', 'The handshake proves knowledge of the secret and cannot be replayed or reflected',
  '''Each side authenticates the other with a keyed SHA-256 MAC over both nonces and a direction-specific prefix, under
  the shared handshake secret; the value one side generates is exactly the value the other side verifies, and the two
  directions can never be swapped. Each side's own nonce is freshly random for each connection and is covered by every MAC
  it accepts, MACs are compared in constant time, and a handshake line is accepted only if its stage, protocol version and
  role are as expected and its nonce has the fixed length.''',
  'inputs histories', 'all handshake transcripts, including replays, reflections and truncations',
  'The tests never run a handshake (the cryptography package is not importable under the test runtime).',
  'privcount/protocol.py privcount/crypto.py', [('client/server HMAC and verify functions', 'privcount/protocol.py'), ('get_hmac, verify_hmac', 'privcount/crypto.py')],
  S + 'comparison of the extracted MAC inputs of both roles', 'HMAC and os.urandom are as documented.')
P('C03', 'An unauthenticated peer cannot make a node buffer or process a large message',
  '''Until a peer has completed the handshake, a line longer than a small fixed limit (a couple of hundred bytes) is
  never processed and closes the connection; the large limit applies only to connections that are authenticated at that moment.''',
  'inputs histories', 'all line lengths and all connection histories',
  'The limit is connection state changed by handshake callbacks that no test runs.',
  'privcount/protocol.py', [('clear / handshake_succeeded / check_line_length', 'privcount/protocol.py')],
  S + 'inductive invariant over every connection callback', 'Twisted LineOnlyReceiver enforces MAX_LENGTH.')
P('C04', 'Secrets are never logged, and leave only as the protocols provide',
  '''The shared handshake secret, private keys, symmetric keys, blinding shares, and the tor control password and cookie never appear
  in a log message, an exception or other text that is printed, and no line sent to another node contains them, except the tor
  password sent to tor itself. A secret is only written to the file it was generated for. Values made from a secret by HMAC, hashing,
  encryption or signing, public keys, and blinded counter values may be sent.''',
  'inputs histories', 'every path on which a value derived from a secret reaches a message, a line or a file',
  'Tests do not read logs, and a secret is shown only on an error path or through a structure that holds it.',
  'privcount/protocol.py privcount/crypto.py privcount/share_keeper.py privcount/data_collector.py privcount/counter.py',
  [('handshake_secret_load / sendLine / getConfiguredPassword', 'privcount/protocol.py'), ('ShareKeeper.do_start', 'privcount/share_keeper.py'), ('encrypt / decrypt', 'privcount/crypto.py')],
  S + 'interprocedural taint analysis with aliases and access paths', 'Secrets are known by their sources: file reads of keys, passwords and the handshake secret, key generation, decryption and sample().')
P('C05', 'Blinding factors are fresh, and leave only encrypted to their own share keeper',
  '''When a data collector starts collecting it draws a new blinding factor for every share keeper, counter and bin,
  before any event can be counted. The factors of a share keeper leave the data collector only encrypted under the
  public key of that same share keeper, and the data collector keeps no copy after handing them over.''',
  'inputs configurations histories', 'every start message and set of share keepers, counters and bins, on every successful start',
  'test_counter blinds with a few fixed share keepers inside one process; the data collector and encryption code is not importable in the tests.',
  'privcount/data_collector.py privcount/counter.py', [('SecureCounters.generate_blinding_shares', 'privcount/counter.py'), ('DataCollector.do_start', 'privcount/data_collector.py')],
  S + 'provenance of blinding factors and released shares', 'Order of encryption statements after the copy is by path, not by time.')
P('C06', 'Noise is added exactly once to every counter, before any counter can leave',
  '''On every successful start of a round, each bin of each counter gets exactly one independent noise value, added before
  events can be counted, and no other code path adds noise or returns counters to which noise was not added.''',
  'inputs configurations histories', 'all counter sets, start messages and start/stop orders',
  'The data collector and its aggregator are not importable in the tests; test_counter adds noise by hand.',
  'privcount/data_collector.py privcount/counter.py', [('Aggregator.generate_noise, _generate_noise_thread', 'privcount/data_collector.py'), ('SecureCounters.generate_noise', 'privcount/counter.py')],
  S + 'counting of noise-adding stores per counter and bin', 'Probability statements about the noise are out of scope.')
P('C07', 'The noise added to a counter is Gaussian with the configured sigma and weight',
  '''Each noise value is a zero-mean Gaussian sample whose standard deviation is that counter's own configured sigma
  scaled by this data collector's configured noise weight; sigma and weight come from the validated start message and
  reach the sampler unchanged.''',
  'inputs configurations', 'all sigmas, weights and counter sets in a start message',
  'The tests check a handful of sigmas against counters in one process; the flow from the start message is in untested modules.',
  'privcount/counter.py privcount/data_collector.py', [('noise', 'privcount/counter.py'), ('DataCollector.do_start', 'privcount/data_collector.py')],
  S + 'symbolic comparison of the scale expression and provenance of sigma and weight', 'random.SystemRandom().gauss samples a Gaussian.')
P('C08', 'Blinding, counting, noise and tallying are exact modular arithmetic that cancels',
  '''Every update of a blinded counter is an addition modulo the counter modulus, the value a share keeper accumulates is the
  exact modular inverse of what the data collector added, and a tally sums every bin of every report. A malformed, empty or
  mismatching share or report is refused instead of changing any counter.''',
  'inputs histories', 'all counter values, shares, increments and orders of combination',
  'test_counter samples some values; wrap-around, mismatching bins and malformed shares are not sampled.',
  'privcount/counter.py', [('SecureCounters', 'privcount/counter.py'), ('derive_blinding_factor, adjust_count_signed, combine_counters', 'privcount/counter.py')],
  S + 'normalisation of counter updates as linear forms modulo the modulus', 'Python long arithmetic is exact.')
P('C09', 'All secret randomness comes from the operating system and is uniform',
  '''Blinding factors, noise, nonces and symmetric keys are produced only from the operating system random source; a blinding
  factor is uniform over the whole range of counter values (no modulo bias, no truncated range).''',
  'inputs programs', 'every use of randomness in the tree, every modulus',
  'A statistical test of a few million samples cannot see a bias of 2^-60 or a generator seeded from the clock.',
  'privcount/counter.py privcount/crypto.py privcount/protocol.py', [('sample, noise', 'privcount/counter.py'), ('generateNonce', 'privcount/protocol.py')],
  'call-graph query over every random source in the tree and ' + S + 'range of the accepted sample', 'os.urandom and SystemRandom are secure.')
P('C10', 'Data collectors only start with exactly their configured share keepers',
  '''A data collector accepts a start command only if the offered share keeper keys are exactly its configured share keepers:
  every offered key has a configured digest, every configured digest is offered, and none is offered twice. Otherwise the
  start is refused: no collection is set up, nothing is encrypted, and the node keeps running.''',
  'inputs configurations', 'every start message and every configured set of share keepers',
  'do_start is in a module the tests cannot import; tests do not enumerate key sets.',
  'privcount/data_collector.py privcount/crypto.py', [('DataCollector.do_start share keeper check', 'privcount/data_collector.py'), ('get_public_digest_string', 'privcount/crypto.py')],
  S + 'both halves of set equality required in the condition of every accepting path', 'SHA-256 is collision resistant.')
P('C11', 'Noise cannot be lowered or changed without waiting for the configured delay',
  '''A round with other counters, or with a lower sigma than allowed by the tolerance, starts only after the configured delay
  has passed since the last round that handed over counts ended; clients check this with their own configured delay and their
  own clock before accepting a start. Every round that hands over counts is recorded with the noise it really used, and small
  decreases cannot add up over rounds. A refused start changes nothing that is recorded.''',
  'inputs configurations histories', 'all sequences of rounds, noise allocations, delays and tolerances',
  'The delay class is tested with a few allocations; its use by the three nodes is in modules the tests cannot import.',
  'privcount/counter.py privcount/node.py privcount/tally_server.py', [('CollectionDelay', 'privcount/counter.py'), ('check_start_config, check_stop_config', 'privcount/node.py'), ('stop_collection_phase', 'privcount/tally_server.py')],
  S + 'comparison of every permitting and recording path with the rule as linear facts; provenance of the arguments of every caller', 'Wall clock time is monotonic; the record is lost on restart.')
P('C12', 'A collection phase follows one order: data collectors, share keepers, stop',
  '''A round goes from the data collectors' start to the share keepers' start only when every data collector of the round has
  returned its blinding shares; each share keeper is sent exactly the shares of all data collectors encrypted for it; a
  client is only sent a start or stop command when it is its turn, and a new round starts only when no round is active,
  enough clients are idle, and the noise delay permits it. States are never skipped backwards.''',
  'schedules histories', 'every order in which clients check in, answer, fail or are lost, in every state of the round',
  'The tally server is not importable in the tests; a test would sample a few orders of a few clients.',
  'privcount/tally_server.py', [('CollectionPhase.get_start_config, store_data, is_participating', 'privcount/tally_server.py'), ('TallyServer.start_new_collection_phase', 'privcount/tally_server.py')],
  S + 'typestate of the collection phase over every method that changes it', 'The event loop calls one method at a time (Twisted reactor).')
P('C13', 'Results are published only from a complete, successful, stopped round',
  '''When a round stops, the tally server waits for every data collector and share keeper of that round; a client is crossed
  off only with its counts stored or with the round marked as failed; the failure mark is never cleared afterwards. A tally
  is computed only for a stopped, unfailed round, from all the counts stored, and counts are published only if it succeeded.''',
  'schedules histories', 'every order of stop answers, errors and lost or late answers',
  'The tally server is not importable in the tests.',
  'privcount/tally_server.py', [('CollectionPhase.stop, store_data, lost_client, set_error', 'privcount/tally_server.py'), ('CollectionPhase.write_results', 'privcount/tally_server.py')],
  S + 'typestate and path conditions of every change of the wanted set, the stored counts and the error mark', 'Which counts a client returns is covered by C05 to C08.')
P('C24', 'A round counts only on clients known, alive and idle by their own status',
  '''A node calls itself idle exactly if it holds no collection. The tally server records a status only for the client that sent it, only
  if its version is accepted (data collectors of versions 1.0.0 and 1.0.1, which add no noise, never are), with the time of arrival, the
  round trip and the clock skew that it measured itself, and keeps the fingerprint that a client first had. A client is forgotten exactly
  if its last status is older than a limit; rounds are started with the clients that are recorded as idle and of the right type, after the
  silent ones were forgotten.''',
  'inputs schedules histories', 'every sequence of statuses, forged fields included, and every time between them',
  'What is known of a client depends on all its earlier statuses and on when they came; tests send a few statuses to a fresh server.',
  'privcount/tally_server.py privcount/protocol.py privcount/data_collector.py privcount/share_keeper.py',
  [('TallyServer.set_client_status / is_valid_client_version / clear_dead_clients', 'privcount/tally_server.py'), ('TallyServer.refresh_loop', 'privcount/tally_server.py'),
   ('get_status', 'privcount/share_keeper.py'), ('PrivCountServerProtocol.handle_status_event', 'privcount/protocol.py')],
  S + 'path conditions of every change to and choice by the table of clients', 'A client that knows the shared secret says itself who it is.')
P('C26', 'Each command reaches its node whole, and its answer the right client\'s record',
  '''After each status a client is sent exactly one command: to stop if one is due, else to start if one is due, else to check in. A start or
  stop command reaches the node once and as it was sent, and is answered by SUCCESS with exactly what the node returned, or FAIL exactly if
  it returned nothing. The tally server hands each answer once to the running round, as a start or stop answer, for the client that the
  connection last named, with its data only if it was a success; a stale client is told to stop without counts. A message that is malformed
  or of no known kind ends the connection, and only one check in task runs at a time.''',
  'inputs schedules histories', 'every message in every order on a connection, every answer of a node',
  'Mixing up two answers or clients needs a sequence of messages on several connections; tests call the nodes directly.',
  'privcount/protocol.py privcount/tally_server.py privcount/crypto.py',
  [('PrivCountServerProtocol.handle_*_event', 'privcount/protocol.py'), ('PrivCountClientProtocol.handle_*_event', 'privcount/protocol.py'),
   ('PrivCountProtocol.process_event', 'privcount/protocol.py'), ('TallyServer.set_start_result / get_stop_config', 'privcount/tally_server.py')],
  S + 'calls, lines and conditions of every path of the message handlers', 'JSON text decodes to what was encoded; twisted delivers lines whole and in order.')
P('C27', 'Encrypted messages use one fresh key each and decrypt to what was encrypted',
  '''Each encryption of a data structure uses a new random symmetric key that is itself encrypted with the receiver's public
  key with OAEP padding, and nothing else of the plaintext or key is in the result. Decryption applies exactly the inverse
  steps, reading the same fields with the same padding parameters, with no age limit on the message.''',
  'inputs', 'all data structures and keys',
  'The cryptography package is not importable under the test runtime, so no test encrypts anything.',
  'privcount/crypto.py', [('encrypt, decrypt and the functions they call', 'privcount/crypto.py')],
  S + 'matching of the extracted encryption and decryption compositions', 'Fernet and RSA-OAEP are as documented.')
P('C14', 'Collection never starts with a configuration that breaks its own rules',
  '''A data collector, share keeper or tally server only accepts counters, sigmas, noise weights and traffic models that are
  valid: the same counters have bins and a sigma, counter names are known (wherever the counters are collected), the bins of a
  counter have lower bounds below their upper bounds and do not overlap, sigmas are numbers that are not negative, noise
  weights are numbers between zero and the largest tally one by one and in sum over the collectors that are needed, and a
  traffic model is complete with probabilities that sum to one. A start message that breaks any of these, or lacks a required
  part, is refused; a tally server never adopts a configuration that does.''',
  'inputs configurations', 'all start messages and configuration files, including values that are not numbers',
  'The tests validate one good configuration; the refusing branches are endless and mostly unsampled.',
  'privcount/counter.py privcount/node.py privcount/traffic_model.py privcount/tally_server.py',
  [('check_counters_config, check_noise_weight_config', 'privcount/counter.py'), ('PrivCountClient.check_start_config', 'privcount/node.py'), ('check_traffic_model_config', 'privcount/traffic_model.py'), ('TallyServer.refresh_config', 'privcount/tally_server.py')],
  S + 'facts implied by every accepting path, with NaN-strict comparisons', 'Emission probability sums and parameter ranges are runtime quantities of nested lists.')
P('C19', 'Stopping a round leaves nothing of it running or waiting on any node',
  '''After a data collector has been told to stop, it has no aggregator, no pending start and no start time; the aggregator that
  ran has dropped its counters, stopped its rotation timer, told tor to stop sending events and closed its connections, and
  events that still arrive are refused without effect. A delayed start only ever starts the aggregator it was scheduled for,
  at most once and only while that start is still pending; a running collection is never replaced; counts are handed over only
  by stopping an aggregator that really ran. The tally server forgets a round once it has stopped, after writing its results once.''',
  'schedules histories', 'all orders of start, delayed start, stop, failed noise generation, connection loss and late events',
  'The tests never instantiate the data collector or its aggregator, and no test orders a stop before the delayed start.',
  'privcount/data_collector.py privcount/protocol.py privcount/tally_server.py',
  [('DataCollector.do_start, _start_aggregator_deferred, do_stop', 'privcount/data_collector.py'), ('Aggregator.stop, handle_event', 'privcount/data_collector.py'),
   ('TorControlClientProtocol.quit', 'privcount/protocol.py'), ('TallyServer.stop_collection_phase', 'privcount/tally_server.py')],
  S + 'typestate of the objects of a round followed as heap state on every path of the start and stop functions', 'Freed memory is not overwritten by Python.')
P('C31', 'A share keeper answers a round with the sum of all its shares, or not at all',
  '''A share keeper reports a successful start only if it imported every blinding share of the start message, each decrypted from
  its own ciphertext with its own private key, into a sum that began empty in this round. If any share is refused, the start
  fails and no partial sum remains. A stop hands out the sum at most once and drops it; nothing else changes it.''',
  'inputs histories', 'all start messages, including those with missing, malformed or mismatching shares, and all orders of start and stop',
  'The share keeper is not importable in the tests; test_counter imports shares by hand and never a refused one.',
  'privcount/share_keeper.py', [('ShareKeeper.do_start', 'privcount/share_keeper.py'), ('ShareKeeper.do_stop', 'privcount/share_keeper.py')],
  S + 'provenance of every imported share and the state of the keystore on every path', 'An exception while importing ends the process.')
P('C20', 'Tor control authentication is mutual, fresh and as strong as both sides allow',
  '''The data collector authenticates to its relay with cookie authentication (SAFECOOKIE) whenever the relay offers it with a
  cookie file, with its password only if not, and with nothing only if nothing else is possible. It challenges with a fresh
  random nonce, and sends its cookie response only to a relay whose own hash proved knowledge of the same cookie over both
  nonces; nonces, hashes, cookies and passwords of the wrong length are refused, and both hashes are those of the control
  specification. A relay counts as authenticated only after it accepted an authentication that was sent. The emulated relay
  serves only controllers that authenticated in the same way.''',
  'inputs histories', 'all sequences of control port lines, all cookie and password files',
  'The control protocol needs Twisted, which the tests cannot import; no test runs an authentication.',
  'privcount/protocol.py', [('TorControlClientProtocol.lineReceived', 'privcount/protocol.py'), ('SAFECOOKIE hashes, readFile', 'privcount/protocol.py'), ('TorControlServerProtocol.lineReceived', 'privcount/protocol.py')],
  S + 'provenance of every authentication line and of every accepted proof, against the control specification', 'The MAC primitives are checked by C02.')
P('C21', 'Only the events a round needs are asked for and counted, and all is undone after',
  '''The data collector asks its relay for exactly the events that the counters of its round need, and starts to process them only on
  an authenticated connection whose relay has said who it is, after turning PrivCount on and sending the traffic model. An event is
  counted only while processing and only if it was asked for; a rejected event, or a relay that answers that PrivCount is off, ends
  the connection. Stopping turns the events off, forgets them, and restores every setting that was changed to its default. Settings
  are only changed if the operator allows it, and no value can smuggle another command into a line sent to the relay.''',
  'inputs configurations histories', 'all lines from the relay, counter sets, settings and orders of starting, stopping and losing the connection',
  'The control protocol is not importable in the tests; no test runs a connection to a relay.',
  'privcount/protocol.py privcount/data_collector.py', [('enableEvents, disableEvents, startCollection, sendLine, lineReceived', 'privcount/protocol.py'), ('Aggregator.buildProtocol, start', 'privcount/data_collector.py')],
  S + 'typestate of the connection, taint of every sent line, and comparison of the settings made and undone', 'Tor itself is trusted to answer in order.')
P('C18', 'What tor reports about users leaves only as counts, and is not logged',
  '''The fields of a well-formed tor event (addresses, host names, onion addresses, times, sizes, paths) reach only the counters and the state
  that the counting keeps between events. At the default log level they are never logged, printed, sent or written to a file, nor is
  anything computed from them or from the kept state, whatever the state of the round or the connection. Only an event or field that is refused as malformed may be
  quoted in the warning that refuses it (and four descriptor fields that are the same for every service, if they are not). Nothing but event handling reads the kept state.''',
  'inputs histories', 'all events in all states of a round and a connection, all sequences of events and rotations',
  'No test runs the event handlers or the connection, and none looks at what is logged.',
  'privcount/data_collector.py privcount/protocol.py privcount/tagged_event.py', [('Aggregator.handle_event, _do_rotate', 'privcount/data_collector.py'), ('TorControlClientProtocol.lineReceived, handleUnexpectedLine', 'privcount/protocol.py'), ('validators', 'privcount/tagged_event.py')],
  'guarded evaluation of all handlers with every log, write, send and store as a taint sink, and ' + S + 'taint of every log of the connection and of the functions handed observations', 'Debug logging is off by default; C06 and C13 cover how counts leave.')
P('C29', 'A list bin counts what matches that list, and the first list wins',
  '''An observed name, country, AS or onion address is counted in the bin of the first configured list that contains it, and in the last
  (unmatched) bin if none does. A list contains an object if the lower case form of the object, or for an onion address the hash of its
  full lower case address, is one of its lower case items. A domain suffix list contains a name if the last dot-separated components of
  the name, in lower case, are one of its suffixes; if suffixes of several lists apply, the shortest one decides (where exact
  matches are counted too, a name on a list counts for that list in both). A list number is never
  taken for a branch of the suffix tree or the reverse (list 0 is a list). An address belongs to the AS of its longest prefix.
  Every line of a list file that is not a comment is an item of the list, in the form in which it is searched.''',
  'inputs', 'all lists and all observed objects',
  'test_match compares samples of a few lists; the functions in the data collector that choose the bin are not importable in the tests.',
  'privcount/match.py privcount/data_collector.py', [('exact_match, suffix_match, suffix_match_prepare_collection, load_match_list', 'privcount/match.py'), ('_exact_match_bin', 'privcount/data_collector.py')],
  S + 'path facts of every answer of the matching functions and of every write to the structures they search', 'pyasn and hashlib are trusted. C30 decides which list each bin belongs to.')
P('C30', 'Bin i of a list counter belongs to the i-th configured list',
  '''The lists of each kind (domains, countries, ASs, HSDir store and fetch reasons, circuit failure reasons, onion addresses) are loaded and
  processed in the order of the configured files, and reach the collectors of the round under their own name, all of them and in that order.
  Every counter that a collector counts in the lists of a kind gets one bin [i, i + 1) for each list i of that kind, and one bin above for no
  match, and no other counter does. What was processed before is only used again if no list has changed, been added, removed or moved.
  Prefixes are looked up in the map of their own IP version.''',
  'configurations histories', 'all configured files and lists, all changes of them between two refreshes',
  'The classes along the way need Twisted, which the tests cannot import; no test changes a list between two rounds.',
  'privcount/tally_server.py privcount/data_collector.py', [('TallyServer.load_match_config, modify_bins, refresh_config', 'privcount/tally_server.py'), ('CollectionPhase.get_start_config', 'privcount/tally_server.py'), ('Aggregator.__init__', 'privcount/data_collector.py')],
  S + 'provenance of every list along its way, evaluation of the counter filters over the counter table, and comparison with the counters that guarded evaluation finds counted', 'C29 decides what matches a list.')
P('C22', 'What a peer sends is data: it is never run, unpickled, or used as a name',
  '''Whatever a node or tor relay sends, no part of it is evaluated, imported, unpickled or parsed by a loader that can build objects, and
  it never chooses an attribute or function by name, a format template, or a file that is opened, written or removed. The one
  exception is the authentication cookie file, whose place tor announces and which is only read.''',
  'inputs histories', 'every line that a peer can send, through every structure it is decoded into and stored in',
  'A dangerous use needs a crafted message; tests send well-formed ones.',
  'privcount/protocol.py privcount/crypto.py privcount/node.py privcount/tally_server.py privcount/data_collector.py privcount/share_keeper.py',
  [('PrivCountProtocol.lineReceived / process_event', 'privcount/protocol.py'), ('decode_data', 'privcount/crypto.py')],
  S + 'interprocedural taint analysis from received lines to code, attribute and file names', 'Twisted hands received lines to lineReceived and lineLengthExceeded.')
P('C23', 'Result files hold totals, not one client\'s counts, nor private paths and keys',
  '''The files of results that the tally server writes contain only the summed counts of a round: the (blinded) counts that a single
  client sent never reach a file. The configs and statuses in the context of the results do not contain the paths of a node's private
  key, certificate, state file, shared secret, noise allocation or results, nor the public keys of the share keepers.''',
  'inputs configurations histories', 'every round outcome and every config and status of the clients',
  'No test writes results; the outcome file copies whole configs and statuses of all nodes, from which these parts are then removed.',
  'privcount/tally_server.py', [('CollectionPhase.get_result_context / write_results / store_data', 'privcount/tally_server.py')],
  S + 'interprocedural taint analysis with aliases and access paths', 'Clients are assumed to report their own type (DataCollector or ShareKeeper).')
P('C28', 'A traffic model counts its Viterbi paths in exactly its own labels',
  '''For a packet model (prefix ExitStreamTrafficModel) and a stream model (ExitCircuitTrafficModel), the counter labels are the static ones of
  the counter table with its prefix, and one for each emission, log delay and squared log delay ('+', '-', and '$' in a Dwell state), delay ('$' in an Active
  state), transition and start state of positive probability. For each event of its kind the model counts one stream or circuit, and for each
  observation of the path (those of less than three items are skipped) an emission, its delay (rounded log, 0 for delays under 1), the start state
  if first, and the transition to the next observation: each in the label of the model and in the static one, in labels of the model only. All
  labels are registered for the event of their prefix before counters are checked; those whose template is in the noise
  file get the noise of that template and the single bin [0, inf), and the model is updated from the tallies of all of its labels.''',
  'inputs configurations', 'all models (every kind of state name, observation, zero or positive probability), all Viterbi paths (every kind of packet, neighbour and position)',
  'test_traffic_model runs one model on one path of packets; no test has a stream model, a zero probability or a short observation.',
  'privcount/traffic_model.py privcount/node.py privcount/tally_server.py privcount/data_collector.py', [('HiddenMarkovModel, TrafficModel', 'privcount/traffic_model.py'), ('PrivCountClient.check_start_config', 'privcount/node.py'), ('TallyServer.refresh_config', 'privcount/tally_server.py')],
  S + 'label terms and path conditions evaluated for models of one state, observation and transition of every kind, and for every kind of packet in a path', 'The numbers of the updated model are not decided.')
P('C17', 'A value is counted in exactly the one bin whose range holds it',
  '''An increment of a counter with several bins changes every bin [l, u) whose range holds the value (l <= value < u, or l <= value if u is
  infinite) and no other, so a value is in no bin or in one, as the checked bins of a counter cannot overlap or be empty or not numbers; bins that do not overlap
  are accepted. A counter that counts or sums has exactly one bin, which is given the value 1, and takes no bin value; every histogram has more
  than one, and takes one. Every increment of the collector passes a bin value exactly if its counter is a histogram.''',
  'inputs configurations', 'all bins and values (all orders of bounds and value), all names and numbers of bins, all increments of the collector',
  'test_counter samples some bins and values; the collector, which decides the bin values, cannot be imported in the tests.',
  'privcount/counter.py privcount/data_collector.py', [('SecureCounters.increment, is_in_bin, is_single_bin_value', 'privcount/counter.py'), ('check_bins_config, check_bin_count_matches_name', 'privcount/counter.py')],
  S + 'the path conditions, which only compare bounds and value, evaluated for every order of them, and guarded evaluation of every increment', 'C14 decides that the bins of a round are checked, C08 that the amount is added exactly.')
P('C25', 'A node works to its last valid configuration file, and takes it whole',
  '''A node reads its configuration file again when it starts, each time it checks in (or, for a tally server, looks at its round) and before it starts
  a round, and works to its own section of it. Every setting in the section that is new or differs from the current one is taken; a
  file that cannot be read, or that fails any check of a setting, changes nothing at all, and nothing can fail between the first change and the
  last. No other code changes the configuration, and no setting is replaced by anything but a normal form of itself (an absolute path, a
  parsed time, the names it lists). A tally server collects exactly the counters that its filters accept and do not reject by name, bins and noise alike.''',
  'inputs configurations histories crash-points', 'all configuration files (every subset of settings, every value that passes or fails a check), all sequences of reloads',
  'No test reads the configuration file of a node.',
  'privcount/tally_server.py privcount/share_keeper.py privcount/data_collector.py', [('TallyServer.refresh_config', 'privcount/tally_server.py'), ('ShareKeeper.refresh_config', 'privcount/share_keeper.py'), ('DataCollector.refresh_config', 'privcount/data_collector.py')],
  S + 'all paths of the three refresh_config methods, with the file as a term and the configuration as heap state; effects that may fail between stores', 'The checks of counters, bins, noise and periods are decided by C14 and C11, those of names and addresses by C30; a setting that is taken out of the file keeps its last value.')
P('C35', 'A node that fails unexpectedly ends, instead of counting on in an unknown state',
  '''An exception in a background task of a node, or in the handling of a line or connection by a protocol, ends the process with a
  non-zero exit code, after the connection is closed. No background task of a node is started without an error callback that does this, and no code that
  catches any exception goes on after code that blinds, counts, adds noise or tallies: counters are never published after half of such a step.''',
  'schedules crash-points', 'every exception that a task, a protocol callback or a function under a catch-all handler may raise',
  'No test runs a task or a protocol, or makes anything fail.',
  'privcount/log.py privcount/protocol.py privcount/tally_server.py', [('errorCallback, stop_reactor', 'privcount/log.py'), ('PrivCountProtocol.lineReceived, dataReceived', 'privcount/protocol.py'), ('LoopingCall.start(...).addErrback', 'privcount/tally_server.py')],
  S + 'typestate of deferreds and all paths of the failure handlers; call graph below every catch-all handler', 'Twisted calls the errback of a task that raised. Exceptions that are expected and handled by type are judged by the properties of the code they are in.')
P('C36', 'Nodes open exactly the configured connections, by default only to themselves',
  '''A node connects to or listens on exactly the addresses, ports and sockets of the items of a connection configuration that are valid, each of them
  once for its address, port or socket, and otherwise only the loopback interface: an item with no address listens or connects there unless the caller asks
  for all interfaces, in which case only listeners may have no address. A configuration is valid only if all of its items are: a port is a
  positive number, an address is an IP address that has a port, sockets and passwords are not empty. Clients connect to the tally server that is configured, by
  TLS; the tally server listens by TLS with its own key; a collector takes events only from its event source. Nothing else opens a connection; closing closes all.''',
  'inputs configurations', 'all connection configurations (single or lists, every subset of settings), all callers',
  'test_tor_ctl_event connects once, to a relay, by hand; no test opens or refuses a configuration.',
  'privcount/connection.py privcount/data_collector.py privcount/share_keeper.py privcount/tally_server.py', [('listen, connect, validate_connection_config', 'privcount/connection.py'), ('do_checkin', 'privcount/share_keeper.py'), ('TallyServer.run', 'privcount/tally_server.py'), ('Aggregator.start', 'privcount/data_collector.py')],
  S + 'every path to an opening call, with address and port as terms over the configuration; who calls one', 'The tools that inject recorded events or serve a fake relay (inject.py, test/) are left out, as no node runs them.')
