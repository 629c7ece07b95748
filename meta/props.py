'The properties, and how each is decided.'

def P(id, title, statement, over, text, why, files, mechanism, technique, note, state=None, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    anchors['hook_needed'] = None
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': anchors, 'technique': technique, 'level_note': note}

TRUST = ' Trusts Jython, Twisted, the stand-in libraries in stubs/ and the simulated environment in lib/simenv.py.'

PROPS = [
P('C01', 'The tally of a completed round is exact',
  'For every set of counters, data collectors, share keepers and increments, combining the counts reported by all data collectors and '
  'share keepers of a round gives, in each bin, exactly the sum of the collected increments and of the added noise, as a signed number '
  'within the capacity of a counter. This holds in whatever order blinding, noise, increments, share imports and reports happen, and '
  'after the counts and shares were serialised and encrypted on the way. Counts or shares that lack a configured counter, or '
  'have a different number of bins, are refused, and leave the tally unaffected.',
  ['inputs', 'configurations', 'schedules'], 'all counter sets, moduli, parties, increments and orders of operations',
  'The unit test runs a handful of fixed increments with two parties; sums modulo 2^70 over every mix of parties, orders, signs and '
  'transports are beyond samples.',
  ['privcount/counter.py', 'privcount/crypto.py'],
  [('blinding shares', 'privcount/counter.py SecureCounters.generate_blinding_shares'),
   ('share import', 'privcount/counter.py SecureCounters.import_blinding_share'),
   ('tally', 'privcount/counter.py SecureCounters.tally_counters, adjust_count_signed')],
  'conservation monitor over randomized protocol runs of the real counters',
  'Every generated run is compared exactly with an independent sum.' + TRUST,
  observe=['detach_counts() of data collectors, share keepers and tally server']),
P('C02', 'Blinding hides counts unless every share keeper contributes',
  'Each count a data collector reports is the true count plus one blinding value per share keeper, modulo the counter modulus, where '
  'every blinding value is drawn uniformly and independently from the system CSPRNG for each bin, share keeper, data collector and round. '
  'Every configured share keeper receives exactly one share covering every bin, and no other party does. After handing the shares over, '
  'the data collector keeps no copy of any blinding value.',
  ['inputs', 'configurations', 'histories'], 'all counter sets, moduli, sets of share keepers and sequences of rounds',
  'Tests only see that blinding cancels out; secrecy needs uniformity, independence and absence of kept copies for every bin and party.',
  ['privcount/counter.py'],
  [('blinding', 'privcount/counter.py SecureCounters._derive_all_counters, derive_blinding_factor, sample'),
   ('hand over', 'privcount/counter.py SecureCounters.detach_blinding_shares')],
  'recorded CSPRNG, statistical uniformity and freshness monitors, deep scan of kept state',
  'Exact for coverage, sums and kept copies; statistical (error below 1e-8) for uniformity.' + TRUST,
  state=[('shares', 'blinding values not handed over yet', 'privcount/counter.py SecureCounters')]),
P('C03', 'Every bin gets its own noise exactly once, at the configured scale',
  'Before a data collector releases its counts, each bin of each counter has received exactly one sample of normally distributed noise '
  'with mean zero and a standard deviation of the configured sigma times the noise weight, rounded to an integer, and drawn '
  'independently for each bin from the system CSPRNG. Counts that have not been given noise are never released.',
  ['inputs', 'configurations', 'histories'], 'all counter sets, sigmas, noise weights and random draws',
  'Noise is random, so the tests accept anything; they can not tell a missing, doubled, mis-scaled or predictable sample from a proper one.',
  ['privcount/counter.py'],
  [('noise', 'privcount/counter.py noise, SecureCounters.generate_noise'),
   ('release guard', 'privcount/counter.py SecureCounters.detach_counts')],
  'recorded noise draws matched one-to-one with the noise in every bin',
  'Exact on every generated configuration given the recorded draws.' + TRUST),
P('C04', 'An increment changes exactly the bins that contain its value',
  'Incrementing a counter adds the exact amount, modulo the counter modulus, to every bin whose half-open range contains the value '
  '(a bin with an infinite upper bound also contains infinity), to the only bin when the counter has a single bin, and to no other bin '
  'or counter. Unknown counters are ignored; fractional amounts, and values of the wrong kind for the counter, are refused without any '
  'change. Counts that were already released are never changed by later increments.',
  ['inputs', 'histories'], 'all bins, values (edges, neighbours of edges, infinities) and amounts',
  'The tests try a few values away from the edges in a single configuration.',
  ['privcount/counter.py'],
  [('bin search', 'privcount/counter.py SecureCounters.is_in_bin, increment')],
  'differential monitor against a reference binning, edge-biased inputs',
  'Exact comparison on every generated sequence.' + TRUST),
P('C05', 'Random integers are exactly uniform and come from the system CSPRNG',
  'Random integers used for blinding and sampling are uniformly distributed over exactly the requested range, with no modulo bias, for '
  'every size of range from one value to more than 2^70. They depend on nothing but the system CSPRNG. Unblinding values are the exact '
  'inverse of blinding values.',
  ['inputs'], 'all range sizes and all outcomes of the random draws',
  'The tests sample a few ranges and check the bounds; small biases need exhaustive enumeration of the draws.',
  ['privcount/counter.py'],
  [('rejection sampling', 'privcount/counter.py sample, sample_randint, derive_blinding_factor')],
  'exhaustive enumeration of controlled CSPRNG draws, statistical monitors for large ranges',
  'Exhaustive over the first draw (and the draw after a rejection) for small ranges; statistical for large ones.' + TRUST),
P('C06', 'Only well-formed counter, noise and weight configurations are accepted',
  'A counter configuration is accepted exactly when every counter is known, has the number of bins its kind requires, has bins with a '
  'lower bound below the upper bound and no value in two bins, has a sigma that is a number not below zero, and the same counters have '
  'bins and sigmas. Noise weights are accepted exactly when the threshold of data collectors is valid, enough weights or a default '
  'exist, and each weight and the largest possible sum lie between zero and the largest tally. A relay is given its own weight, or else '
  'the default, or else none.',
  ['inputs', 'configurations'], 'all counter, noise and weight configurations',
  'The tests have one or two examples of each defect; combinations and boundaries are unlimited.',
  ['privcount/counter.py'],
  [('bins and sigmas', 'privcount/counter.py check_counters_config, combine_counters'),
   ('noise weights', 'privcount/counter.py check_noise_weight_config, get_noise_weight')],
  'differential monitor against a reference predicate, mutated configurations',
  'Exact comparison on every generated configuration.' + TRUST),
P('C07', 'Rounds with reduced or changed noise are delayed, over any history',
  'After a successful round, a round whose counters differ from, or have a sigma lower by more than the tolerance than, those of the '
  'first round in the current series of equivalent rounds may only start once the configured delay has passed after the end of the last '
  'successful round; every other round may start at once, and so may the first. Many small decreases can not evade the delay. '
  'Failed rounds change nothing.',
  ['histories', 'inputs'], 'all histories of proposed, failed and successful rounds, sigmas, delays and tolerances',
  'The tests replay a fixed list of transitions; the guarantee is about sequences of any length, including gradual drift.',
  ['privcount/counter.py'],
  [('collection delay', 'privcount/counter.py CollectionDelay')],
  'history checker: reference model run along random histories',
  'Exact comparison at every step of every generated history.' + TRUST,
  state=[('starting_noise_allocation', 'first allocation of the current series', 'privcount/counter.py CollectionDelay'),
         ('last_round_end_time', 'end of the last successful round', 'privcount/counter.py CollectionDelay')]),
P('C08', 'The noise allocation spends the privacy budget, and never more',
  'For every valid choice of privacy parameters, sensitivities, expected values and sampling rate, the allocation succeeds with one '
  'positive sigma per counter, such that each counter satisfies (epsilon, delta) differential privacy for its share of the budget, the '
  'shares add up to at most the total budget, and the noise is the same fraction of each expected (sampled) value. The noise is the '
  'least that does so, within the search tolerance.',
  ['inputs', 'configurations'], 'all privacy parameters and counter sets',
  'The tests compare the function with itself on three data sets.',
  ['privcount/statistics_noise.py'],
  [('allocation', 'privcount/statistics_noise.py get_noise_allocation, get_opt_privacy_allocation'),
   ('privacy predicate', 'privcount/statistics_noise.py satisfies_dp')],
  'independent evaluation of the privacy guarantee on randomized allocations',
  'Numerical comparison with an independent tail computation, tolerances as documented by the code.' + TRUST),
P('C09', 'Nodes authenticate each other before anything else happens',
  'A connection becomes authenticated only when the peer has proved, for the fresh random cookies of this connection, that it knows the '
  'shared secret: the server sends its own proof only to a client that proved itself, and each side accepts nothing but the next step of '
  'the handshake until it is complete. Replayed, reflected, reordered, altered, skipped or repeated steps, proofs under another key, '
  'and a client cookie that is the cookie of the server itself, end the connection, and no status, command or result has any effect before. A well-formed line with a wrong proof, of any version, '
  'ends only its connection, not the node.',
  ['inputs', 'histories', 'schedules'], 'all sequences of handshake lines, keys, cookies and fragmentations',
  'No test runs the handshake at all; it must resist every sequence an attacker can send, not just the expected one.',
  ['privcount/protocol.py', 'privcount/crypto.py'],
  [('handshake', 'privcount/protocol.py PrivCountProtocol.generateHandshake, verifyHandshake'),
   ('state machine', 'privcount/protocol.py PrivCountServerProtocol, PrivCountClientProtocol.process_event, handle_handshake_event')],
  'trace monitor with an independent verifier of every proof, attacker scripts',
  'Exact on every generated script: the monitor recomputes each HMAC independently.' + TRUST,
  observe=['lines written to the transport', 'calls on the factory']),
P('C10', 'Tally server and clients follow their dialogue line by line',
  'However a peer splits its data, each complete line is processed exactly once, in order. Before authentication, lines over 200 bytes, '
  'and lines that are not the next handshake step, end the connection (a valid line of up to 200 bytes does not); after it, so does the first unknown or malformed line, and '
  'nothing after it has any effect. The server asks a client to stop before asking it to start, and to check in otherwise; it records '
  'each result once, under the name the client gave. A client carries out each command once, reports its result or its failure, and '
  'checks in once per period, on the latest period it was told.',
  ['inputs', 'schedules', 'histories'], 'all sequences of lines, fragmentations, results and times',
  'The protocol classes have no tests; the guarantees are about every order of messages and every way they are fragmented.',
  ['privcount/protocol.py'],
  [('line dispatch', 'privcount/protocol.py PrivCountProtocol.lineReceived, process_event'),
   ('server dialogue', 'privcount/protocol.py PrivCountServerProtocol.process_status, send_stop_start_checkin'),
   ('client dialogue', 'privcount/protocol.py PrivCountClientProtocol.handle_checkin_event')],
  'online monitor of the dialogue: recorded factory calls and lines against a reference',
  'Exact on every generated script.' + TRUST,
  observe=['lines written to the transport', 'calls on the factory', 'the check-in task']),
P('C11', 'Shares are readable by their share keeper only, and not alterable',
  'Whatever data is encrypted to a key, decrypting it with the private key gives the same data; with any other key, or after any change '
  'of the ciphertext, decryption is refused with an exception. Every message is encrypted under a fresh key that it does not reveal. '
  'Message authentication codes are HMAC-SHA256 over prefix and data, are accepted exactly when they are right, and refused for keys '
  'that are shorter than the hash. A key is named by the hash of its public part, and only the public part is sent.',
  ['inputs'], 'all data structures, keys and modifications of the ciphertext',
  'The tests round-trip a few small values with one key; secrecy and integrity are about every value and every modification.',
  ['privcount/crypto.py'],
  [('hybrid encryption', 'privcount/crypto.py encrypt, decrypt, encode_data, decode_data'),
   ('HMAC', 'privcount/crypto.py get_hmac, verify_hmac'),
   ('key names', 'privcount/crypto.py get_public_digest, get_serialized_public_key')],
  'round trip, freshness and tampering monitors, independent HMAC',
  'Exact on every generated case. The primitives themselves are stand-ins over the Java platform.' + TRUST),
P('C12', 'A share keeper releases its exact sums once, when its round ends',
  'A share keeper starts a round only with complete, valid counters, weights and shares that all match, and when no delay is enforced; '
  'a refused start never makes it active, nor adds to the shares of a running round, and a new round replaces one that is running. When the round is stopped and its counters are wanted, it sends, once, the exact '
  'modular sum of the unblinding values of all shares it was given for that round, and nothing else about them; otherwise it sends no '
  'sums. After a stop it keeps no share. Shares and its private key are never sent.',
  ['histories', 'inputs'], 'all sequences of start and stop commands, shares and times',
  'The share keeper has no tests; the guarantee is about every sequence of commands.',
  ['privcount/share_keeper.py', 'privcount/node.py'],
  [('start', 'privcount/share_keeper.py ShareKeeper.do_start'), ('stop', 'privcount/share_keeper.py ShareKeeper.do_stop'),
   ('common checks', 'privcount/node.py PrivCountClient.check_start_config, check_stop_config')],
  'history monitor with a reference state machine, on a real share keeper with real ciphertexts',
  'Exact at every step of every generated history.' + TRUST,
  state=[('keystore', 'sums of the current round', 'privcount/share_keeper.py ShareKeeper')],
  observe=['results of do_start, do_stop, get_status', 'object graph of the share keeper']),
P('C13', 'A data collector releases noisy, blinded counts once, when its round ends',
  'A data collector starts a round only when the counters, weights and traffic model are valid, the share keepers are exactly those it '
  'trusts, no round is running and no delay is enforced; a refused start changes nothing about the running round. It returns one share '
  'for each share keeper, encrypted to it, and keeps none. When a started round is stopped and its counters are wanted, it sends, once, '
  'for each bin what it collected plus its noise, added exactly once for the weight of its relay, plus its blinding. A relay without a '
  'noise weight, or a round stopped before it began, sends no counts. What it sends about the round says when the round was started and '
  'stopped, however often the data collector checked in meanwhile.',
  ['histories', 'inputs'], 'all sequences of commands, relay identities, events and times',
  'The data collector node has no tests; the guarantee is about every sequence of commands and events.',
  ['privcount/data_collector.py', 'privcount/node.py'],
  [('start', 'privcount/data_collector.py DataCollector.do_start'), ('stop', 'privcount/data_collector.py DataCollector.do_stop, Aggregator.stop'),
   ('noise', 'privcount/data_collector.py Aggregator.generate_noise, set_fingerprint')],
  'history monitor with a reference state machine, on a real data collector whose shares are decrypted by the check',
  'Exact at every step of every generated history, given controlled noise draws.' + TRUST,
  observe=['results of do_start, do_stop, get_status', 'decrypted shares', 'object graph of the data collector']),
P('C14', 'Rounds start only when allowed, and every client gets the right command',
  'The tally server starts a round only when enough data collectors and share keepers that recently checked in are idle, the configured '
  'number of rounds is not used up, the configured start time has passed, and the delay enforced between rounds has passed. All idle '
  'clients take part, and no others. Every data collector is sent the configured counters, noise, weights, lists and share keeper keys; '
  'share keepers are started only after every data collector has answered, each with exactly its own share from each data collector. '
  'Each participant is asked until it answers; leftover active clients are stopped without asking for counts. Data collectors that do '
  'not add noise (1.0.0, 1.0.1) never take part. A relay keeps its first fingerprint. An invalid configuration never takes effect.',
  ['histories', 'schedules', 'configurations'], 'all sequences of client check-ins, answers, failures, restarts and configuration changes',
  'The tally server has no tests; its guarantees are about every interleaving of clients, timers, failures and configuration changes.',
  ['privcount/tally_server.py', 'privcount/node.py', 'privcount/counter.py'],
  [('rounds', 'privcount/tally_server.py TallyServer.refresh_loop, start_new_collection_phase'),
   ('commands', 'privcount/tally_server.py CollectionPhase.get_start_config, get_stop_config, store_data'),
   ('clients', 'privcount/tally_server.py TallyServer.set_client_status, clear_dead_clients')],
  'model-based trace monitor of the real tally server with simulated faulty clients',
  'Every answer and status of every generated history equals that of an independent reference.' + TRUST,
  state=[('round', 'the running collection phase', 'privcount/tally_server.py CollectionPhase'),
         ('clients', 'known clients and their last status', 'privcount/tally_server.py TallyServer.clients')],
  observe=['return values of set_client_status, get_stop_config, get_start_config, get_status']),
P('C15', 'A tally is published only with the counts of every participant',
  'The tally server stops a round when its period is over, or because of an error, and asks every participant for its counts until it '
  'answers. Nothing is published before every participant of the round has answered. A tally is published exactly when every '
  'participant sent counts for all the counters and bins of the round; it then is the sum of all of them, in which the blinding has '
  'cancelled out. Once a participant failed to send its counts, or when the round failed to start, no counts are asked for, and no '
  'tally is published. Late, repeated and unexpected answers change nothing. Each round writes one outcome file.',
  ['histories', 'schedules', 'fault_sequences'], 'all sequences of answers, failures, losses, repetitions and delays of clients',
  'A partial tally looks like any other tally; only a monitor that knows who took part can tell, for every fault sequence.',
  ['privcount/tally_server.py'],
  [('end of a round', 'privcount/tally_server.py TallyServer.stop_collection_phase, CollectionPhase.stop'),
   ('counts', 'privcount/tally_server.py CollectionPhase.store_data, get_stop_config'),
   ('results', 'privcount/tally_server.py CollectionPhase.write_results')],
  'model-based trace monitor and conservation check of published files, with faulty clients',
  'Every published file of every generated history is compared with what the clients sent.' + TRUST,
  observe=['files in the results directory', 'send_counters of stop commands']),
P('C16', 'The outcome file describes the round and gives no secrets away',
  'The outcome file of every round, successful or not, records when it started, stopped and ended, the clock padding, the clients with '
  'their last status and configuration, and the configuration and noise of the tally server that were used. It never contains paths of '
  'keys, secrets or state, public keys, shares, the counts of a single participant, or the contents of match lists.',
  ['histories', 'configurations'], 'all configurations, clients and courses of a round',
  'What must not be in the file can come from any client, configuration or error path; the tests read no outcome file.',
  ['privcount/tally_server.py', 'privcount/node.py'],
  [('context', 'privcount/tally_server.py CollectionPhase.get_result_context'),
   ('summaries', 'privcount/node.py PrivCountNode.summarise_config_lists')],
  'monitor of published outcome files: tainted secrets, and a reference for the recorded facts',
  'Exact for each recorded fact, and for the secrets the check planted.' + TRUST,
  observe=['privcount.outcome files']),
P('C18', 'Each finished exit stream is counted in exactly the right exit counters',
  'A stream end event with bytes in either direction adds to every applicable exit stream counter, and to no other: by port class '
  '(web, interactive, P2P, other), first or later stream, IPv4, IPv6 or hostname destination, and, for the first streams of web '
  'circuits, exact and suffix domain matches and mismatches. For each, it counts one stream and its bytes by direction and in total, '
  'and puts its bytes, byte ratio and lifetime in the right bin, and matches in the bin of their list. Streams without bytes, on other '
  'circuits than exit circuits, and malformed events change nothing.',
  ['inputs', 'histories', 'configurations'], 'all stream events, selections of counters, bins and domain lists',
  'The data collector has no tests. A mistake in one of hundreds of counters that are computed from each other cannot be seen in tallies.',
  ['privcount/data_collector.py', 'privcount/match.py'],
  [('streams', 'privcount/data_collector.py Aggregator._handle_stream_event, _increment_stream_end_counters'),
   ('domains', 'privcount/match.py exact_match, suffix_match')],
  'online reference oracle: the counts of a real round, without noise and blinding, against an independent model of each event',
  'Every bin of every collected counter of every generated round is compared exactly.' + TRUST,
  observe=['counts reported by do_stop, unblinded with the share of the share keeper']),
P('C19', 'Each closed circuit is counted in exactly the right circuit counters',
  'A circuit close event adds to every applicable circuit counter, and to no other: by position (origin, entry, mid, end, single hop, '
  'exit, directory, HSDir, intro, rendezvous), hidden service version, role (client or service, and Tor2Web, single onion or multi hop), '
  'activity, and success or failure. For each, it counts one circuit and its cells by direction, and puts its cells, cell ratio, '
  'lifetime and failure reason in the right bin or list. Malformed events change nothing, and never end the connection to Tor.',
  ['inputs', 'histories', 'configurations'], 'all circuit events, selections of counters, bins and failure lists',
  'The data collector has no tests. A counter that is never or wrongly incremented looks just like one of a rare event in a tally.',
  ['privcount/data_collector.py', 'privcount/tagged_event.py'],
  [('circuits', 'privcount/data_collector.py Aggregator._handle_circuit_close_event, _increment_circuit_close_counters'),
   ('validation', 'privcount/data_collector.py Aggregator.are_circuit_close_fields_valid, privcount/tagged_event.py')],
  'online reference oracle: the counts of a real round, without noise and blinding, against an independent model of each event',
  'Every bin of every collected counter of every generated round is compared exactly.' + TRUST,
  observe=['counts reported by do_stop, unblinded with the share of the share keeper']),
P('C20', 'Each closed connection is counted in exactly the right connection counters',
  'A connection close event adds to every applicable connection counter, and to no other: entry or not, with or without relays on the '
  'address, and for the first country list and the first AS list, matching or not. For each, it counts one connection, its bytes and '
  'circuits by direction, puts them and its lifetime and overlap in the right bins, and the count lists get the number of the list that '
  'has its country, or the AS of the longest prefix of its address, and the last bin otherwise. Malformed events change nothing.',
  ['inputs', 'histories', 'configurations'], 'all connection events, selections of counters, bins, country lists, AS lists and prefix maps',
  'The data collector has no tests. A counter that is never or wrongly incremented looks just like one of a rare event in a tally.',
  ['privcount/data_collector.py', 'privcount/match.py', 'privcount/tagged_event.py'],
  [('connections', 'privcount/data_collector.py Aggregator._handle_connection_close_event, _increment_connection_close_variants'),
   ('lists', 'privcount/match.py exact_match, ipasn_prefix_match'),
   ('validation', 'privcount/data_collector.py Aggregator.are_connection_close_fields_valid')],
  'online reference oracle: the counts of a real round, without noise and blinding, against an independent model of each event',
  'Every bin of every collected counter of every generated round is compared exactly. pyasn itself is a stand-in.' + TRUST,
  observe=['counts reported by do_stop, unblinded with the share of the share keeper']),
P('C21', 'Each onion service descriptor store and fetch is counted in the right counters',
  'An HSDir cache store or fetch event adds to every applicable HSDir counter, and to no other: for both versions together and for its '
  'own version, added or rejected, cached or not, and with client authorisation or not (version 2). For each, it counts one event and '
  'its descriptor and introduction point bytes, and puts these, the introduction points, upload delay, revision, reason and onion '
  'address (or its MD5 digest) in the right bin or list. Malformed events, and events with fields of the other version, change nothing.',
  ['inputs', 'histories', 'configurations'], 'all store and fetch events, selections of counters, bins and lists',
  'The data collector has no tests. A counter that is never or wrongly incremented looks just like one of a rare event in a tally.',
  ['privcount/data_collector.py', 'privcount/match.py', 'privcount/tagged_event.py'],
  [('stores', 'privcount/data_collector.py Aggregator._handle_hsdir_store_event, _increment_hsdir_store_version_counters'),
   ('fetches', 'privcount/data_collector.py Aggregator._handle_hsdir_fetch_event, _increment_hsdir_fetch_version_counters'),
   ('validation', 'privcount/data_collector.py Aggregator.are_hsdir_common_fields_valid'),
   ('onion addresses', 'privcount/match.py exact_match_onion_md5')],
  'online reference oracle: the counts of a real round, without noise and blinding, against an independent model of each event',
  'Every bin of every collected counter of every generated round is compared exactly.' + TRUST,
  observe=['counts reported by do_stop, unblinded with the share of the share keeper']),
P('C22', 'Streams are counted per circuit, and circuits per client, exactly once',
  'When an exit circuit closes, the streams that ended on it since its id was last used are counted exactly once: in total and per '
  'class of ports, with the differences of their successive creation times; streams of other circuits are never mixed in. Each rotation '
  'counts each client address of the previous window exactly once, as active when any of its circuits that overlap the window was, with '
  'the number of its active and inactive circuits, however its address is spelled, and then forgets it.',
  ['inputs', 'histories', 'schedules'], 'all histories of streams, circuits and rotations',
  'It depends on histories across events and windows, which no test runs.',
  ['privcount/data_collector.py'],
  [('per circuit', 'privcount/data_collector.py Aggregator._handle_stream_event, _handle_legacy_exit_circuit_event'),
   ('per client', 'privcount/data_collector.py Aggregator._handle_legacy_exit_circuit_event, _do_rotate')],
  'online model of circuits, clients and windows, compared with the counts of a real round',
  'Every bin of every collected counter of every generated history is compared exactly.' + TRUST,
  state=[('circ_info', 'streams of circuits that are open', 'privcount/data_collector.py Aggregator'),
         ('cli_ips_current, cli_ips_previous', 'clients of the last two windows', 'privcount/data_collector.py Aggregator')]),
P('C24', 'The data collector authenticates to its relay safely, and before anything else',
  'With each relay, the data collector uses the best method that both have: SAFECOOKIE, with a cookie of exactly 32 bytes and only '
  'after the relay has proved that it knows the cookie for a fresh 32 byte nonce; else its configured password, if that has an acceptable '
  'length; else none. Cookies are never sent. Passwords are only sent when that method is used. Nothing is asked of the relay before.',
  ['inputs', 'configurations', 'histories'], 'all relays, honest or not, methods, cookies and passwords',
  'The control protocol client has no tests, and a wrong order or a missing comparison does not show with an honest relay.',
  ['privcount/protocol.py'],
  [('authentication', 'privcount/protocol.py TorControlProtocol, TorControlClientProtocol'),
   ('secrets', 'privcount/protocol.py TorControlProtocol.readFile, encodeControllerString, decodeControllerString')],
  'online trace monitor of every line to and from a simulated relay, against the control port specification',
  'Relays of all kinds, including ones that lie, are simulated.' + TRUST),
P('C25', 'The events a data collector asks its relay for are counted exactly once',
  'The data collector asks its relay for exactly the events its counters need. While it does, each event the relay sends is counted '
  'exactly once, however the stream is fragmented or mixed with replies; events that are unasked for, malformed or of other kinds change '
  'no count. Counts and noise survive lost connections, restarts of the relay and errors, and it connects again and continues. After the '
  'end of the round nothing more is counted.',
  ['histories', 'schedules', 'fault_sequences'], 'all streams of events, fragmentations, connection losses and errors',
  'Depends on fragmentation, interleaving and connection loss, which no test exercises.',
  ['privcount/protocol.py', 'privcount/data_collector.py', 'privcount/counter.py'],
  [('control connection', 'privcount/protocol.py TorControlClientProtocol'),
   ('events', 'privcount/data_collector.py Aggregator.handle_event'),
   ('needed events', 'privcount/counter.py get_events_for_counters'),
   ('reconnection', 'privcount/data_collector.py Aggregator')],
  'online conservation monitor: events delivered on the wire while asked for, against the unblinded counts of the round',
  'Events are delivered by a simulated relay through the real protocol.' + TRUST,
  observe=['every line on both directions of the control connection', 'counts reported by do_stop']),
P('C27', 'A relay is checked, configured for the round, described truthfully, and restored',
  'Events are only asked of a relay that has the PrivCount patch, a fingerprint, a noise weight and PrivCount enabled, after it has been '
  'given exactly the sample rate, cell limit and traffic model of the round (or, without use_setconf, none of these changes). A relay '
  'without a noise weight yields no counts. The status gives what the relay said about itself, or leaves it out if malformed. At the end '
  'of the round the configuration is restored and the connection is closed for good.',
  ['configurations', 'histories', 'fault_sequences'], 'all relays, round configurations, connection losses and restarts',
  'The control protocol client has no tests, and needs a relay.',
  ['privcount/protocol.py', 'privcount/data_collector.py'],
  [('discovery', 'privcount/protocol.py TorControlClientProtocol'),
   ('configuration', 'privcount/protocol.py TorControlClientProtocol.enableEvents, disableEvents'),
   ('context', 'privcount/data_collector.py Aggregator.set_fingerprint, get_context')],
  'online trace monitor of the control connection, and comparison of the relay configuration before, during and after each round',
  'Relays of all kinds are simulated.' + TRUST,
  observe=['configuration of the relay whenever events are requested', 'DataCollector.get_status']),
P('C17', 'Every published tally is the exact sum over the data collectors it lists',
  'In a whole deployment, whatever connections break, processes die and restart, nodes are away, relays restart or configurations change: '
  'whenever the tally server publishes a tally, each bin is exactly the sum of the events of the relays whose data collectors are in the '
  'round, plus the noise of each of them once, with no part of the blinding left. Otherwise it publishes an outcome without a tally. '
  'When all nodes work again, rounds complete again by themselves.',
  ['histories', 'fault_sequences', 'schedules'], 'all deployments, configurations and sequences of faults',
  'It is a property of all processes together, over time and with faults; the tests run single modules and one fixed round.',
  ['privcount/tally_server.py', 'privcount/share_keeper.py', 'privcount/data_collector.py', 'privcount/node.py', 'privcount/protocol.py',
   'privcount/counter.py'],
  [('rounds', 'privcount/tally_server.py TallyServer, CollectionPhase'), ('shares', 'privcount/share_keeper.py ShareKeeper'),
   ('counts', 'privcount/data_collector.py DataCollector, Aggregator'), ('reconnection', 'privcount/node.py, privcount/protocol.py')],
  'online conservation monitor over a simulated deployment: events delivered to each data collector against each published tally',
  'All nodes run the real code in one simulation of time, network, files and processes.' + TRUST,
  state=[('outcome files', 'results of all rounds', 'privcount/tally_server.py CollectionPhase.write_results')],
  observe=['outcome files', 'events delivered by simulated relays', 'counts reported by do_stop of each data collector']),
P('C36', 'Every counter can be collected alone, or with any others, and counts the same',
  'For each set of counters, the data collector asks its relay for the events that can change one of them, and no others; so a counter '
  'that is collected alone has the counts that it has when it is collected with all others.',
  ['configurations', 'inputs'], 'all sets of counters and all events',
  'The tests look up the events of a few counters, and do not compare them with the events that change the counter.',
  ['privcount/counter.py', 'privcount/data_collector.py'],
  [('needed events', 'privcount/counter.py get_events_for_counter, get_events_for_counters, PRIVCOUNT_COUNTER_EVENTS'),
   ('events asked for', 'privcount/data_collector.py Aggregator.start, privcount/protocol.py TorControlClientProtocol')],
  'comparison of rounds with each counter alone against a model of the effects of each event; a relay that only sends what it is asked for',
  'Counters that no generated event changes (traffic model templates) are only looked up, not collected.' + TRUST),
P('C26', 'Lists of domains, countries, networks and reasons count as configured',
  'Each list of a valid configuration has its own bin, in the order of the configuration, and one more bin counts what is in none: in the '
  'round that starts after the tally server has read the files, each value is counted in the bin of the first list that has it, however it '
  'is spelled in the file or event; host names also with the list that has the name or a parent of it. Changed, added, removed or reordered '
  'files take effect at the next round, and only then. A configuration with a bad line, an empty or missing file, half of the network '
  'prefixes, or lists that overlap (where that is not allowed) is refused as a whole, and the last good one stays in use.',
  ['configurations', 'histories', 'inputs'], 'all lists, all sequences of changes of files and configurations, and all events',
  'Depends on the history of configurations and on the tally server, data collector and matching code together; tests load fixed lists once.',
  ['privcount/tally_server.py', 'privcount/match.py', 'privcount/config.py', 'privcount/data_collector.py'],
  [('lists', 'privcount/tally_server.py TallyServer.load_match_config, load_as_prefix_config, modify_counter_list_bins'),
   ('matching', 'privcount/match.py'), ('spelling', 'privcount/config.py check_*, strip_onion_str'),
   ('counting', 'privcount/data_collector.py Aggregator')],
  'comparison of each published tally with an independent model of the list files, over histories of changes in a simulated deployment',
  'Where lists overlap, hosts that are in one list and below a name in another are left out.' + TRUST,
  observe=['outcome files', 'events delivered by a simulated relay']),
P('C29', 'A traffic model round counts exactly its paths, and gives the model that follows',
  'A round with a traffic model and noise file collects exactly the counters that the noise file names, with its noise, or all counters of '
  'the model if there is no noise file. Each relay gets exactly that model. Each path of states and observations that it decodes is counted '
  'in each of these counters as documented. The outcome has the model used, and the model updated from the tallies, which is also in a file '
  'of its own with a link to the latest. A changed model is used from the next round on; an invalid one is refused, and the last one kept.',
  ['histories', 'inputs', 'configurations'], 'all models, noise files, paths and sequences of changes',
  'Depends on models, paths and configurations over several rounds and nodes; the tests count one fixed path in one fixed model.',
  ['privcount/traffic_model.py', 'privcount/tally_server.py', 'privcount/data_collector.py', 'privcount/protocol.py', 'privcount/counter.py'],
  [('counters of a model', 'privcount/traffic_model.py TrafficModel.get_bins_init_config, get_noise_init_config, register_counters'),
   ('paths', 'privcount/traffic_model.py increment_packets_counters, increment_streams_counters; privcount/data_collector.py'),
   ('rounds', 'privcount/tally_server.py refresh_config, CollectionPhase.get_updated_traffic_model, write_results')],
  'comparison of each tally and updated model with independent references, over histories of models in a simulated deployment',
  'Relays are simulated, paths are random rather than likely. Logarithms of delays are rounded, as in the code (the documentation says '
  'truncated).' + TRUST,
  observe=['outcome files, traffic model files and link', 'commands received by a simulated relay']),
P('C30', 'Updated traffic models are valid, and move half way to what was counted',
  'From any valid model and any tallies, also noisy, zero or negative ones, the update gives a valid model with the same states, '
  'observations and transitions: each distribution sums to 1 and moves by the inertia from the old one towards the one counted, states that '
  'were not seen stay, and each delay distribution moves to the mean and deviation that were counted. Models that are not valid are refused; '
  'valid ones, and the results of updates, are accepted. A noise file may name any of the counter templates of its model, and no others; it '
  'stands for exactly the counters of these templates. Normalising a model with weights gives the valid model with the same proportions.',
  ['inputs', 'histories'], 'all valid models, tallies and sequences of updates',
  'The tests update one model with tallies without noise; a division by zero or a bad sum depends on the tallies.',
  ['privcount/traffic_model.py'],
  [('validity', 'privcount/traffic_model.py check_traffic_model_config, TrafficModel.is_valid'),
   ('update', 'privcount/traffic_model.py TrafficModel.update_from_tallies')],
  'comparison of sequences of updates with an independent reference, and validity of each result',
  TRUST.strip()),
P('C31', 'The injector replays a log faithfully, only to a controller that may ask',
  'To the first controller that authenticates, with any of the configured methods, and asks for known events, the injector sends each event '
  'of the log that ended in the given window: once, in order, its end moved to now, its duration kept, and everything else unchanged; with '
  '--simulate, with the pauses of the log between them, else at once. It sends nothing else to anyone: not before authentication with the '
  'right secret, not before events are asked for, not after the controller leaves or asks to stop. It only listens locally by default, '
  'stops listening when asked for events, then closes the connection and ends.',
  ['inputs', 'histories', 'configurations'], 'all logs, options, and behaviours of controllers that connect one at a time',
  'The injector and the server side of the control port have no tests.',
  ['privcount/inject.py', 'privcount/protocol.py', 'privcount/connection.py'],
  [('replay', 'privcount/inject.py PrivCountDataInjector'), ('control port', 'privcount/protocol.py TorControlServerProtocol'),
   ('listening', 'privcount/connection.py listen, stopListening')],
  'comparison of everything that simulated controllers receive, and when, with a reference made from the log and their own actions',
  'Controllers are simulated, connect one at a time, and ask for events once. Event times in the log are numbers.' + TRUST,
  observe=['lines that a controller receives, with times']),
P('C28', 'Fields of events and control port strings are read exactly, or refused',
  'A tagged event has exactly the fields that the relay sent; if any of them is malformed, or given twice, it has none. A field is valid if '
  'and only if it is text, a list, an integer, a flag, a finite number or an IP address as required, within the given limits, or is missing '
  'and not mandatory; its value is then what the relay wrote, or the given default. Passwords, paths and nonces, with any bytes, survive '
  'being written in quotes or hexadecimal and read back; strings that are neither, and nonces of a wrong length, are refused.',
  ['inputs'], 'all fields, values, limits, defaults and byte strings',
  'Tests parse a few well-formed events; no test encodes a control port string.',
  ['privcount/tagged_event.py', 'privcount/protocol.py'],
  [('fields', 'privcount/tagged_event.py parse_tagged_event, is_*_valid, get_*_value'),
   ('strings', 'privcount/protocol.py TorControlProtocol.encodeControllerString, decodeControllerString, decodeNonce')],
  'comparison of the fields, their validity and values, and of encoded strings, with an independent reference',
  'Fields are checked before they are read, as the functions ask.' + TRUST),
P('C32', 'Configuration files take effect as documented: completely, or not at all',
  'When a node reads its configuration, each option has the value of the file, or its documented default or limit. If any option is missing '
  'or invalid, or a file that it names is, then nothing changes: the node goes on with its last valid configuration, or waits for a first '
  'one. If all are valid, all are used: whatever the node read before, it then has the configuration that a newly started one would have. '
  'The tally server collects the counters that have bins and noise and that the filters let through, with the noise that the budget or the '
  'file gives them.',
  ['histories', 'configurations'], 'all sequences of valid and invalid configuration files of each kind of node',
  'Depends on combinations of dozens of options and on what the node read before; the tests only check that some template files load.',
  ['privcount/tally_server.py', 'privcount/share_keeper.py', 'privcount/data_collector.py', 'privcount/node.py', 'privcount/config.py'],
  [('tally server', 'privcount/tally_server.py TallyServer.refresh_config'), ('share keeper', 'privcount/share_keeper.py ShareKeeper.refresh_config'),
   ('data collector', 'privcount/data_collector.py DataCollector.refresh_config'),
   ('common options', 'privcount/node.py normalise_delay_config, privcount/config.py')],
  'comparison of the configuration of a node that reads a sequence of files with an independent model of the options, and with a fresh node',
  'The main file is there, and is YAML with values of the documented types. Privacy budgets that have no counter to be spent on are left out.'
  + TRUST),
P('C33', 'Connections are opened exactly where configured, and can be closed',
  'For each valid connection configuration (one or several unix sockets and ports), a node listens at, or connects to, exactly the configured '
  'places: a port without an address stands for the local addresses of the default IP versions, or for all local addresses if a listener '
  'asks for that. Items that are not valid open nothing, and do not keep the others from being opened. Everything that was opened is '
  'returned, and can be closed with it. Descriptions of connections have the right ends.',
  ['configurations', 'inputs'], 'all connection configurations and defaults',
  'Which addresses are listened at depends on combinations of items and defaults; the tests do not open any.',
  ['privcount/connection.py'],
  [('opening', 'privcount/connection.py listen, connect'), ('closing', 'privcount/connection.py stopListening, disconnect'),
   ('validity', 'privcount/connection.py validate_connection_config'), ('descriptions', 'privcount/connection.py transport_info')],
  'comparison of what a simulated reactor opens and closes with an independent reading of the configuration',
  'The reactor is simulated; no two items name the same place.' + TRUST,
  observe=['places where the node listens or connects, as seen by the reactor']),
P('C34', 'Lists are read exactly, and strings match them exactly',
  'A list file has one item for each line that is not blank or a comment, with the spelling of its kind removed: domain names, countries, '
  'autonomous systems, reasons and onion addresses (or their hashes, in any kind of URL). A file with a malformed line is refused. '
  'A string matches an exact list if and only if it is in it, whatever its case; or, for onion addresses, if its hash is. It matches a '
  'suffix list if and only if one of its suffixes, at a separator, is in it; the shortest such suffix decides which list it belongs to, and '
  'overlaps between lists are noticed. Addresses and networks are accepted if and only if they are valid.',
  ['inputs'], 'all list files, lists, overlaps of lists, and strings',
  'Trees of suffixes depend on the order and overlap of all items; the tests check single matches.',
  ['privcount/match.py', 'privcount/config.py'],
  [('files', 'privcount/match.py load_match_list, load_as_prefix_map'), ('exact', 'privcount/match.py exact_match*'),
   ('suffixes', 'privcount/match.py suffix_match*'), ('syntax', 'privcount/config.py check_*, strip_onion_str, validate_ip_*')],
  'comparison of loaded files, and of each search, with sets and brute-force search over the same items',
  'Suffixes are not empty.' + TRUST),
P('C35', 'Logs tell operators the right times, sizes and names',
  'Each period, date, delay, elapsed time and size that is written to a log is the one that was given, to the documented precision: a period '
  'in weeks, days, hours, minutes and seconds can be read back to the same number of seconds; intervals start and end, and delays are over, '
  'when it says; sizes have the largest unit that keeps them at least 1, and one decimal place. Strings and lists up to the limit '
  'are kept, longer ones are shortened to exactly the limit, and keep their start and end; a list has its true length.',
  ['inputs', 'histories'], 'all periods, times, sizes, strings, lists and limits, at all times of day',
  'Formatting depends on carries between units and on limits of lengths; the tests do not check any text.',
  ['privcount/log.py'],
  [('periods', 'privcount/log.py format_period'), ('times', 'privcount/log.py format_*time*, format_interval*'),
   ('sizes', 'privcount/log.py format_bytes'), ('summaries', 'privcount/log.py summarise_string, summarise_list')],
  'reading the texts back, and comparison with independent formatting; the clock is simulated',
  'Times are between 1970 and 2100.' + TRUST),
P('C37', 'Plotted results are those of the files, with the right confidence intervals',
  'For all outcome and tallies files, the text and the graphs have exactly the bins of the counters in the files that the options do not '
  'leave out, in order, each with its range, its label and its value. The interval is the given number of standard deviations of the noise '
  'in the result, from the noise the file was collected with, and is left out if that is unknown or zero; '
  'its probability is right. Totals are the sums of the values, and of the variances. Bins are said to be obscured, or possibly zero, '
  'and are left out if asked for, if and only if the interval says so for all files. Bounds only apply as asked, and are reported where they '
  'changed something.',
  ['inputs', 'configurations'], 'all sets of comparable files, and all options',
  'There are no tests of the plotting tool.',
  ['privcount/plot.py'],
  [('reading', 'privcount/plot.py load_input_file, collect_counters'), ('labels', 'privcount/plot.py get_bin_labels'),
   ('totals', 'privcount/plot.py append_total_counters'), ('errors', 'privcount/plot.py calculate_error_values, calculate_bin_reliability'),
   ('filters', 'privcount/plot.py remove_ignored_items'), ('text', 'privcount/plot.py output_text_file'),
   ('graphs', 'privcount/plot.py get_plot_info, plot_pdf')],
  'comparison of the text, and of what a recording drawing library is told to draw, with results computed from the files',
  'The drawing library is a stand-in. Files that are plotted together have the same bins and labels.' + TRUST,
  observe=['the written text file', 'what is drawn']),
P('C38', 'Position weights are the part of the network that the relays see',
  'For all consensuses and all choices of relays, each result is the mean, over the consensuses, of the part of the whole network that the '
  'chosen relays are in that position, times the number of times that the whole network sees what is counted. Positions are weighted by '
  'bandwidth and the weights of the consensus for relays that can be in it, or by the part of the ring that a directory is '
  'responsible for. All relays together have everything, none have nothing, and parts add up.',
  ['inputs', 'configurations'], 'all consensuses with at least three directories, and all choices of relays',
  'The tool has no tests, and the weight of a relay depends on many flags, protocols and versions, and on its neighbours on the ring.',
  ['privcount/tools/compute_fractional_position_weights'],
  [('weights', 'privcount/tools/compute_fractional_position_weights get_bw_weight, get_weighted_bandwidths'),
   ('ring', 'privcount/tools/compute_fractional_position_weights get_hsdir_v2_spread'),
   ('fractions', 'privcount/tools/compute_fractional_position_weights get_fractional_weights'),
   ('results', 'privcount/tools/compute_fractional_position_weights main')],
  'comparison of the printed results with an independent calculation from the consensuses',
  'stem and numpy are replaced by stand-ins that provide parsed consensuses.' + TRUST,
  observe=['the printed results']),
P('C39', 'The privcount command runs what it is told to, and logs where it is told to',
  'A right command line runs exactly the chosen node or tool, once, with exactly the given configuration or options, from a file or from '
  'standard input. Everything at or above the chosen level, and nothing else, is in the chosen log, in order, with the name of the node. '
  'A wrong command line runs nothing and fails.',
  ['configurations', 'inputs'], 'all command lines and configurations',
  'The command has no tests.',
  ['privcount/tools/privcount', 'privcount/inject.py', 'privcount/plot.py'],
  [('command line', 'privcount/tools/privcount main'), ('paths', 'privcount/tools/privcount type_str_path_in, type_str_path_out'),
   ('options of tools', 'privcount/inject.py add_inject_args, privcount/plot.py add_plot_args')],
  'comparison of what stand-in nodes get, and of the logs, with the command line',
  'Nodes are stand-ins.' + TRUST, observe=['arguments of the nodes', 'log files']),
P('C40', 'A replayed event log counts like the events of the relay it was recorded from',
  'A data collector that connects to the event injector instead of a relay, with or without a password or a cookie, gets every event of '
  'the log, in order and once, and reports exactly the counts that these events have; the same holds for further logs in the same round, '
  'and for the events that came before a round ended early. It reports the relay that the injector emulates. The injector then ends.',
  ['inputs', 'configurations', 'schedules'], 'all event logs, counters and ways to connect',
  'No test runs the injector or the data collector; only a whole test network does, with one log.',
  ['privcount/inject.py', 'privcount/protocol.py', 'privcount/data_collector.py'],
  [('replay', 'privcount/inject.py PrivCountDataInjector'), ('emulated relay', 'privcount/protocol.py TorControlServerProtocol'),
   ('control connection', 'privcount/protocol.py TorControlClientProtocol'), ('counting', 'privcount/data_collector.py Aggregator')],
  'comparison of the lines that arrive and of the reported counts with references of the events of the log',
  'The references are those of C18 to C21. Events are well formed.' + TRUST,
  observe=['lines that the data collector receives', 'reported counts']),

P('C41', 'Status and warnings tell operators truly which nodes work and when rounds end',
  'The status of the tally server gives its true state and since when, the numbers of idle and active clients, of data collectors with '
  'a control connection and with recent events, the rounds completed, the earliest time of the next round and why, and when the running '
  'round ends by its own period; nodes log exactly what a status says. The tally server warns about exactly the clients that missed '
  'check-ins (3 periods), are dead (7 periods), lack a relay (10 seconds) or recent events (an hour) in a round, allowing for check-ins '
  'and round trips, and doubts the results of data collectors without events in the round. A data collector warns at check-ins '
  'about a missing relay or missing events, after the same times. Missing events are warnings if the flags of the relay make '
  'events of the counters likely, and notices otherwise.',
  ['histories', 'inputs'], 'all histories of clients, relays, events, rounds and configurations; all statuses',
  'The few tests of status code are of single helpers; what is true of a status depends on the whole history.',
  ['privcount/tally_server.py', 'privcount/node.py', 'privcount/data_collector.py', 'privcount/counter.py'],
  [('status', 'privcount/tally_server.py TallyServer.get_status, get_control_dcs'),
   ('warnings', 'privcount/tally_server.py TallyServer.clear_dead_clients, is_client_control_ok, is_last_client_event_recent'),
   ('client', 'privcount/data_collector.py Aggregator, DataCollector.check_aggregator'), ('likely events', 'privcount/counter.py are_events_expected'),
   ('log', 'privcount/node.py log_tally_server_status')],
  'monitor of the status and of the log of real nodes, against a reference model of the history, at every loop and check-in',
  'Messages are found by the words they have now. Cases within a millisecond of a limit are not judged.' + TRUST,
  observe=['the status of the tally server', 'log messages and their levels']),
P('C42', 'The noise tools report exactly the noise allocation that a round would use',
  'For all privacy parameters, tolerances and statistics, the reports and noise configurations that operators compute offline have the '
  'epsilon and sigma of each statistic once, as get_opt_privacy_allocation and a tally server compute them, the given statistics, '
  'parameters and tolerances (or their defaults), the ratio of noise to expected values, and a zero counter; they satisfy and use up '
  'the privacy budget within the tolerances. The command-line tools run to their end with the statistics in them. The searches they rest '
  'on find the least value (or largest without) within the tolerance, inside the interval, or fail if there is none.',
  ['inputs', 'configurations'], 'all privacy parameters, tolerances and sets of statistics; all monotone predicates and intervals',
  'The tests only run one of the tools, which compares the code with itself on three data sets.',
  ['privcount/statistics_noise.py', 'privcount/tools/compute_noise.py', 'privcount/tools/compute_noise_traffic_model.py'],
  [('interfaces', 'privcount/statistics_noise.py get_noise_allocation_stats, compare_noise_allocation, print_privacy_allocation'),
   ('search', 'privcount/statistics_noise.py interval_boolean_binary_search, get_differentially_private_epsilon'),
   ('tools', 'privcount/tools/compute_noise.py, compute_noise_traffic_model.py')],
  'independent evaluation of the output of the real tools and functions',
  'Reports are parsed by the words they have now; the tail computation is independent.' + TRUST,
  observe=['what the tools print', 'results of the functions']),
]

NOT_APPLICABLE = {}

NOTES = ('Every check runs the real modules of /repo/privcount under Jython, as the repository\'s own tests are run here, inside a '
         'simulated environment (lib/simenv.py), and compares what monitors observe with independent references. '
         'Reproduce one case: python3 run.py <ID> --replay <file>. Other seeds: --seed N.')
