'How each property is decided: (part, [(id, text)]).'
PARTS = [
('Counters, noise and configuration (one module at a time)', [
('C01','Random parties count, blind, add fixed noise, serialise, encrypt, report and import in random orders. **Oracle**: an independent sum of all increments and noise, as a signed number. Malformed reports have to be refused without effect on the tally. Bounds: up to 5 collectors, 5 keepers, 2^8 to 2^80 moduli.'),
('C02','All draws of the CSPRNG are recorded. **Oracle**: reported − true = sum of the shares, every bin of every keeper; each share is new; a scan of everything reachable from the collector after the shares were handed over finds none of them; chi-square tests on all values of the run (error < 1e-8). With one share keeper whose share equals a blinded empty bin, the scan skips that value (it was a false alarm).'),
('C03','Standard normal draws are replaced by recorded ones on a coarse grid, so that noise − round(draw × sigma × weight) = 0 determines which draw made the noise of which bin: a bijection is required. Release without noise is refused.'),
('C04','**Oracle**: a plain re-statement of half-open bins. Values at, just beside and between edges, infinities, negative and huge amounts, refused kinds.'),
('C05','The generator is asked for bits by a controlled source: for each small modulus all outcomes of the first draw are enumerated, which gives the exact distribution, and redraws are counted; large moduli: extremes and a statistical test.'),
('C06','**Oracle**: a reference predicate over well-formed configurations, with one or two defects planted in a valid one. Nothing is claimed on a counter that has a single bin by nature having more (the upload delays of HSDir counters look like that by their name, but are histograms: this was a false alarm).'),
('C07','Histories of proposed, permitted, failed and finished rounds with drifting sigmas; **oracle**: the largest sigma ever used since the last delay that ended, per counter, not the last one. Both directions: rounds that may start have to.'),
('C08','**Oracle**: numeric (erfc) privacy cost of the allocation, the equal-ratio optimum, and the documented search tolerances.'),
('C32','Sequences of versions of the files of one node, with one to three options changed each time to values at, in and out of their limits, bins and noise inline or in files, budgets, filters, secrets, missing files; about a third are invalid. **Oracle**: a model of the options written from the documentation, using the predicates of C06; half of the accepted versions are also read by a fresh node. After an invalid version, the whole configuration must equal the last one. A budget without any counter left, or with a sample rate of 0, ends the refresh with a ZeroDivisionError and is not generated.'),
]),
('Connections between nodes', [
('C09','An attacker on the connection replays, reflects, relays, reorders, tampers and truncates lines of handshakes, to real server and client protocols. **Oracle**: an independent handshake; whoever authenticates a peer must have received the right proof, for its own nonce, in order; honest peers always succeed.'),
('C10','Scripts of lines, before and after authentication, in fragments. **Oracle**: a state machine of the documented dialogue: what factories are told, what is answered, when the connection is closed. Malformed JSON ends the process by design, so only what came before is compared.'),
('C11','Round trips, wrong keys, every kind of tampering, HMAC against hashlib; the strength of the primitives is assumed.'),
('C33','Random items (25 ways to be invalid), defaults, calls. **Oracle**: an independent reading of the item against the ports and connectors that the simulated reactor holds; then everything must be closed. Values of other types than text and numbers raise a TypeError and are not generated.'),
]),
('Nodes over histories', [
('C12','A real share keeper over random start/stop histories with shares encrypted to its key. **Oracle**: the modular sum of the accepted round; sent once, with the stop that ends the round; nothing after refused starts. Rounds of zero length, and noise allocations that lack sigmas (KeyError ends the process) are not generated.  The configuration that is sent along after a refused start during a round is not compared.'),
('C13','A real data collector over random histories, with relay fingerprints, missing noise weights, events, early stops. **Oracle**: events counted while collecting + noise once + blinding; shares and counts of the same round; no counts from rounds that never began or lost their weight.'),
('C14','A real tally server with scripted clients and changing files; each `loop` is compared with a reference of when a round may start, and each answer to a client with what that client must be told. Round starts, delays, thresholds, stale clients.'),
('C15','The same runs; the outcome of each round is compared with what the scripted clients sent: a tally if and only if every participant sent complete counts.'),
('C16','The same runs; each outcome file is compared with the round: times, configuration, statuses, participants; and is searched for every secret (keys, shared secrets, shares, paths).'),
('C17','A whole deployment under faults. Relays record which events they delivered to which collector; noise is forced to exactly sigma per bin and collector, so that doubled or missing noise shows. **Oracle**: conservation, for each published tally. Then peace, in which rounds have to complete again (bounded liveness: within a fixed virtual time).'),
]),
('Events of relays', [
('C18','Random stream-end events on random counters and bins. **Oracle**: `checks/c18.py` states from the documentation which counters each stream counts in. Ratios exactly at bin edges are avoided (rounding).'),
('C19','The same for circuit-close events, positions, onion service roles, failures, malformed fields.'),
('C20','The same for connection-close events, countries, networks, prefix maps. Empty AS lists have at least 2 bins.'),
('C21','The same for HSDir store and fetch events of both versions.'),
('C22','Histories of circuits with reused ids and of clients around the rotation of the address tables.'),
('C24','Relays with all methods, right and wrong cookies and passwords, that may lie. **Oracle**: which methods are allowed, in which order; no cookie or password to a relay that did not prove knowledge of the cookie; no other command before.'),
('C25','A relay sends events in the middle of replies and consensus entries, in fragments, before and after they are asked for. **Oracle**: each event sent on a session that asked for it, in the round, is counted once.'),
('C27','Relays of all kinds. The configuration of the relay is recorded at each command: as configured during the round, restored when the collector leaves; the status has what the relay said. Consensus entries with an empty list of flags are not generated.'),
('C36','One round per counter with a relay that only sends what it is asked for. **Oracle**: the same counter in a collection of all.'),
('C26','Deployments in which list files change between rounds. **Oracle**: an independent matcher over the files as they were when the round began. Hosts that are exactly in one list and below a shorter suffix of another are left out where overlaps are allowed. AS lines that are not integers end the tally server with a ValueError and are not generated; lines that start with `//` are comments; reasons with `_` or `-` are refused.'),
('C34','Files with good and bad lines of each kind; collections over tiny alphabets, so that items repeat and contain each other, with random separators, tags and hashes. **Oracle**: sets, and brute force over all suffixes. Only the matching code, so many more overlaps are reached than in C26.'),
('C28','Events broken in eight ways; every kind of field with values at, inside and outside random limits, missing with or without a default. **Oracle**: a restatement of the documented rules, with lists of well-formed and malformed texts of each type. Byte strings with quotes, backslashes and all bytes through every encoding.'),
]),
('Traffic models', [
('C29','Deployments with random models of packets, streams or both, noise files that name some or all templates, or none, bins and sigmas in one file or two. Relays send random paths (states, observations, delays, also unknown ones). Between rounds, models are replaced, spoiled in one of seven ways, or follow the link to the latest update. **Oracle**: `lib/tmodel.py` (labels, effects of a path, update) written from the documentation in `docs` and the template names. Noise is exactly one sigma per collector, so the tallies are exact. Logarithms of delays are rounded, as the code does and the documentation does not.'),
('C30','Chains of updates from random models and tallies: plausible, sparse, noisy, negative, empty. **Oracle**: `lib/tmodel.py`, and a validity predicate of its own; results feed the next update. Each model is also spoiled in one of the ways of C29, noise files are made from random sets of its templates, and one that it does not have, and its probabilities are replaced by weights. A state whose total is not positive keeps its distribution.'),
]),
('Tools', [
('C31','The real injector, with its command line, listening in the simulation; logs with all kinds of events, out of order, malformed, blank, in and out of the window, from a file or standard input. Sequences of controllers: wrong passwords, cookies, nonces, roles, encodings, commands before authentication, then a right one that asks odd questions, then asks for events, and stays or leaves in one of several ways. **Oracle**: lines and times computed from the log; an independent SAFECOOKIE client. Not generated: two connections at once, asking for events twice, events without a timestamp or with one that is not a number (the injector ends).'),
('C35','Values at and beside the limits of each unit, at random (simulated) times of day. **Oracle**: the text is read back with a regular expression, and compared with arithmetic on integers; strings, lists and sets around the limits of the summaries.'),
('C37','The real command line on one to three random files of all kinds. **Oracle**: the series, totals, errors, filters and labels are recomputed from the files; the text is parsed; a stand-in for matplotlib (which is not installed) records bars, errors, ticks and legends. Cases where a decision hangs on rounding by one are left out.'),
('C38','Consensuses of 3 to 20 relays, with extreme fingerprints, all flags, versions around 0.3.0.8, protocols and weights; one to three of them. **Oracle**: the share of each position from its definition. stem, numpy and multiprocessing are stand-ins. Not generated: fewer than three directories, missing weights, relays without a version.'),
('C39','The real command with nodes and tools replaced by recorders that log at all levels; configurations with odd bytes and line ends. **Oracle**: the arguments.'),
('C40','The real injector and a real data collector, connected by the simulated network (latency, fragments, unix sockets, reconnection); logs '
 'of all kinds of events. **Oracle**: the references of C18-C21, for the events that arrived, which must be those of the log, in order.'),
('C41','The runs of C14, with relays that come and go, and clients that get no events; a data collector whose relay is silent or away; random statuses. '
 '**Oracle**: the status, the set of warnings and their levels, and the status in the log, from a reference of the history, at each loop, '
 'status and check-in. Cases within a millisecond of a limit are left out.'),
('C42','The two real tools, run to their end; the functions they use with random statistics, budgets and tolerances; the search with random monotone predicates. '
 '**Oracle**: what is printed is parsed and compared with the parameters in the tool; privacy of each line and of the sum is computed independently (lib/dp.py).'),
]),
]
