# Core: messages, headers, URIs ------------------------------------------------
prop("C01", "Message parsing is total, bounded and strict",
 """For every byte string offered as a SIP message the parser returns either a message or an error: it never panics, hangs or accepts
 input outside the documented limits (header count and size, start line, body). Messages with malformed framing (start line, header lines, missing
 mandatory headers, Content-Length that is not a plain decimal number or disagrees with the bytes present, repeated or conflicting Content-Length) are refused, never guessed at.""",
 ["inputs"], "all byte strings: valid messages, systematic and random mutations, limit-straddling sizes, arbitrary bytes",
 "unit tests parse a handful of fixed messages; crashes and lenient acceptance live in byte sequences nobody wrote down",
 ["crates/sip-parse/src/lib.rs", "crates/sip-parse/src/header_values.rs", "crates/sip-core/src/msg.rs"],
 [("parse_request/parse_response size and syntax guards", "crates/sip-parse/src/lib.rs")],
 "h-core", technique="runtime monitoring: panic/limit monitors and an independent strictness oracle over generated and mutated messages",
 note="Held on the generated, mutated and limit-straddling messages of the run; optimised build with overflow checks and debug assertions. Assumes the documented limits are the intended ones.")
prop("C02", "Serialising and parsing messages are inverse",
 """Every well-formed request or response survives serialise-then-parse unchanged: start line, every header in order with its value, and the exact body bytes,
 with the written Content-Length equal to the body length. Compact header names, folded lines, any letter case of header names and surrounding whitespace in the wire form do not change the message obtained,
 and re-serialising a parsed message is stable.""",
 ["inputs"], "all well-formed messages over every method, header kind, header order, body content and wire spelling",
 "tests round-trip a few fixed messages, without the cross product of spellings, header orders and binary bodies",
 ["crates/sip-parse/src/lib.rs", "crates/sip-core/src/msg.rs", "crates/sip-core/src/headers.rs"],
 [("parse_* and serialize_*", "crates/sip-parse/src/lib.rs")],
 "h-core", technique="runtime monitoring: model-based round-trip oracle over generated messages and wire spellings",
 note="Each generated message has an independent component model the parsed result is compared with. Held on the messages generated.")
prop("C03", "Header collections behave as an ordered, case-insensitive, safe multimap",
 """A header collection keeps every header added, in order, and finds, replaces and removes them by name regardless of letter case, so that its contents after any sequence of edits equal those of a plain ordered list.
 It never accepts a name or value that would put an extra line into a serialised message, and never grows beyond its documented limits.""",
 ["histories", "inputs"], "all sequences of add, set, replace, remove and lookup operations with arbitrary names and values, including control characters",
 "tests exercise each operation once; interactions between operations, letter cases and limits need long random histories",
 ["crates/sip-core/src/headers.rs", "crates/sip-core/src/msg.rs"],
 [("Headers validation and storage", "crates/sip-core/src/headers.rs")],
 "h-core", technique="runtime monitoring: executable-model comparison over random operation histories, wire-level injection monitor",
 note="Every operation result and the whole content are compared with a list model after each step.")
prop("C04", "URIs keep their parts through parsing, editing and printing",
 """Parsing a SIP, SIPS or tel URI yields exactly the components its grammar assigns, printing it yields text that parses back to an equal URI, and editing one component leaves every other component unchanged.
 Ill-formed text (bad ports, control characters, unbalanced brackets, injected parameters, broken escapes, repeated parameters, phone-context violations, over-long parts) is refused without a panic, both when parsed and when supplied through the editing interface.""",
 ["inputs"], "all URIs generated from the grammar with a component model, edits of them, and hostile strings",
 "tests cover specific URIs; parameter values, escapes, IPv6 literals and edit orders combine without bound",
 ["crates/sip-core/src/uri.rs", "crates/sip-core/src/tel_uri.rs"],
 [("SipUri/TelUri parse, with_* and Display", "crates/sip-core/src/uri.rs")],
 "h-core", technique="runtime monitoring: component-model oracle over generated URIs and edits, hostile-input monitors",
 note="Held on the URIs and edits generated; the generator's component model is the oracle.")
prop("C05", "Address and routing header values keep their parts",
 """Reading a well-formed Via, From, To, Contact, Route, Path, Service-Route, History-Info, P-Asserted-Identity or Referred-By value yields exactly the display name (unquoted), URI, and parameters
 (case-insensitive names, unquoted values) the grammar assigns, for every entry of a list, in order, even when quoted text contains separators or brackets, and printing the parsed value gives text that reads back equal.
 A repeated parameter is refused, and no text, read or supplied through the editing interface, causes a panic, adds a parameter or a line to what is printed, or exceeds the documented limits.""",
 ["inputs"], "all generated header values over every quoting and separator placement, edits of them, and mutated or hostile text",
 "tests use plain display names and token parameters; quoting, separators inside quotes and lists combine without bound",
 ["crates/sip-core/src/name_addr.rs", "crates/sip-core/src/via.rs", "crates/sip-core/src/route.rs", "crates/sip-core/src/service_route.rs", "crates/sip-core/src/p_headers.rs", "crates/sip-core/src/referred_by.rs", "crates/sip-parse/src/header_values.rs"],
 [("name-addr and parameter parsing", "crates/sip-parse/src/header_values.rs"), ("Display impls", "crates/sip-core/src/route.rs")],
 "h-core", technique="runtime monitoring: component-model oracle over generated header values, print/parse and injection monitors",
 note="Each generated value carries the model it must parse to; hostile values only assert totality, limits and single-line output.")
prop("C06", "Structured header values and tokens mean what their grammar says",
 """Reading a well-formed value of the remaining structured headers (RSeq, RAck, Session-Expires, Min-SE, Replaces, Reason, Event, Subscription-State, Authorization, Security-*, Content-Type, Date, Priority, entity tags, feature and method lists, geolocation and access-network headers) yields exactly its fields,
 case-insensitively where the grammar says so, and printing it yields text that reads back equal; methods, branches and versions compare as the SIP standard prescribes.
 Out-of-range numbers, repeated parameters and control characters are refused, and no text at all causes a panic or a multi-line value.""",
 ["inputs"], "all generated values of each header with a field model, boundary numbers, and mutated or arbitrary text",
 "tests use one or two literal values per header; numeric boundaries, letter case, quoting and parameter order combine without bound",
 ["crates/sip-core/src/rseq.rs", "crates/sip-core/src/session_timer.rs", "crates/sip-core/src/replaces.rs", "crates/sip-core/src/reason.rs", "crates/sip-core/src/mime.rs", "crates/sip-core/src/auth.rs", "crates/sip-core/src/security.rs", "crates/sip-core/src/date.rs", "crates/sip-core/src/method.rs", "crates/sip-parse/src/header_values.rs"],
 [("typed header parsers and Display", "crates/sip-core/src"), ("parse_*_header", "crates/sip-parse/src/header_values.rs")],
 "h-core", technique="runtime monitoring: field-model oracle over generated header values, boundary and hostile-text monitors",
 note="The generator's field model is the oracle; values outside the grammar only assert totality, single-line output and, where quoting is tidy, re-reading.")
prop("C07", "Privacy requests strip what identifies the caller and nothing else",
 """When the privacy kinds asked for in a request are enforced, the headers each kind names no longer contain any part of the caller's identity
 (display name, user, host, other addresses on the same line), whatever the spelling, quoting, number or order of those headers.
 Headers the request did not ask to protect keep their values and order, the From tag is kept so that the dialog still matches, and with no privacy or "none" the message is unchanged.""",
 ["inputs"], "all combinations of privacy kinds over generated messages with marked secrets in every identifying header, in any spelling and quoting",
 "tests anonymise one tidy From header; a leak depends on lists, quoting, compact names and which kinds are combined",
 ["crates/sip-core/src/privacy.rs"],
 [("privacy enforcement and Privacy header", "crates/sip-core/src/privacy.rs")],
 "h-core", technique="runtime monitoring: taint-marker leak monitor and preservation model over generated messages and privacy kinds",
 note="Secrets carry a marker no other text contains; a marker left in a protected header is a leak. Header parameters are not treated as secret; unknown privacy kinds make the header refused and are not enforced.")
prop("C08", "Message bodies carried as text say what was put in",
 """CPIM messages, message-waiting summaries and message fragments read as exactly the headers, parameters, counts, start line and body their text contains, in every permitted layout (line endings, blanks, letter case, order),
 and what is built through the interface is printed so that an independent reader, and the library itself, find the same contents.
 Bodies are kept byte for byte, counts never overflow, and no text or binary content causes a panic or adds a line.""",
 ["inputs"], "all generated bodies with a field model in every layout, and mutated or hostile text",
 "tests use a few tidy bodies; blank lines in bodies, escapes, several messages, missing parts and binary content combine without bound",
 ["crates/sip-core/src/cpim.rs", "crates/sip-core/src/message_waiting.rs", "crates/sip-core/src/sipfrag.rs"],
 [("parse_cpim / Display", "crates/sip-core/src/cpim.rs"), ("parse_message_summary", "crates/sip-core/src/message_waiting.rs"), ("parse_sipfrag", "crates/sip-core/src/sipfrag.rs")],
 "h-core", technique="runtime monitoring: field-model oracle with independent writer and reader over generated bodies, totality monitors",
 note="The generator's field model is the oracle in both directions; mutated text only asserts totality and stable re-reading.")
prop("C09", "Caller preferences select and rank contacts as specified",
 """Capabilities, Accept-Contact, Reject-Contact and Request-Disposition values read as exactly what their text says in every permitted layout and print to text that reads back equal.
 Given any capabilities and preferences, contacts are rejected, dropped for explicit or required features, scored and ordered exactly as the caller-preferences rules prescribe, with ties broken by the contact's own priority.
 No text causes a panic or lets a value escape its quotes.""",
 ["inputs"], "all generated capability sets and preference lists with an executable matching model, any layout, and hostile text",
 "tests match one or two features; negation, ranges, explicit/require flags and scores over many contacts combine without bound",
 ["crates/sip-core/src/caller_preferences.rs", "crates/sip-core/src/capabilities.rs"],
 [("score_contacts", "crates/sip-core/src/caller_preferences.rs"), ("capability parse/Display", "crates/sip-core/src/capabilities.rs")],
 "h-core", technique="runtime monitoring: executable matching model compared with the ranking of every generated contact set, round-trip monitors",
 note="The model follows RFC 3841; numeric ranges as features, conflicting directives and empty token lists are not judged.")
prop("C10", "Event state documents say in XML what was put in",
 """Presence, watcher-information and registration-information documents built through the interface print as well-formed XML in which an independent reader finds exactly the entities, states, notes, times, numbers and addresses put in, and which the library reads back as an equal document.
 A presence or watcher-information document in any other permitted layout (attribute order, quotes, blanks, character references, foreign attributes and elements, empty elements) reads as the same document, and one that lacks a mandatory part or names an unknown status is refused.
 Text inside one value never becomes another value or element, and no text causes a panic.""",
 ["inputs"], "all generated documents with an element-tree model, in any layout, and mutated or hostile text",
 "tests read the library's own tidy output; markup inside values, attribute look-alikes and other writers' layouts are unbounded",
 ["crates/sip-core/src/presence.rs", "crates/sip-core/src/watcher_info.rs", "crates/sip-core/src/reg_event.rs"],
 [("parse_pidf / to_xml", "crates/sip-core/src/presence.rs"), ("parse_watcherinfo / to_xml", "crates/sip-core/src/watcher_info.rs"), ("RegInfo Display", "crates/sip-core/src/reg_event.rs")],
 "h-core", technique="runtime monitoring: independent strict XML reader and free-layout writer as oracles over generated documents",
 note="Documents without comments, CDATA, document types or prefixes on the elements, and values without blanks at their ends.")
# Authentication ------------------------------------------------------------
prop("C11", "Documented size limits hold exactly",
 """Every documented size limit of the message layer (counts of headers, parameters, list members and addresses, lengths of names, values, tokens and bodies) holds exactly: whatever fits is accepted, whatever exceeds it is refused, both when read from text and when built through the interface.
Once something has been refused, what was there before is unchanged.""",
 ["inputs"], "all structures filled up to, at and beyond each of about 110 limits, by parsing and by building",
 "tests try single limits on single interfaces",
 ["crates/sip-core/src", "crates/sip-parse/src/lib.rs"],
 [("parse_request/parse_response", "crates/sip-parse/src/lib.rs"), ("Headers::push", "crates/sip-core/src/headers.rs")],
 "h-core", technique="runtime monitoring: boundary workload around each limit with an accept/refuse oracle and an unchanged-after-refusal monitor",
 note="The limits are those the sources document; probes are one below, at, one above and far above each.")
prop("C12", "Parameters of headers and addresses form one case-insensitive table",
 """In every header value and address that carries parameters (Event, Subscription-State, the Geolocation headers, P-Access-Network-Info, asserted identities, History-Info, media types, Referred-By, Authorization, Via, name-addresses, SIP and tel URIs, security mechanisms), a parameter name means the same parameter in any letter case: after any sequence of additions and replacements each name occurs once, with the value last accepted for it, in look-ups, listings, counts and the written form read back.
Adding a name that exists is refused without any change where adding is documented to refuse, and replaces the value where it is documented to replace.""",
 ["inputs", "histories"], "all sequences of parameter edits in any letter case on sixteen kinds of structure",
 "tests add one or two parameters, mostly in one letter case",
 ["crates/sip-core/src/via.rs", "crates/sip-core/src/event.rs", "crates/sip-core/src/mime.rs", "crates/sip-core/src/auth.rs", "crates/sip-core/src/tel_uri.rs", "crates/sip-core/src/security.rs", "crates/sip-core/src/geolocation.rs"],
 [("add_param/with_param/set_param/insert_param", "crates/sip-core/src/via.rs")],
 "h-core", technique="runtime monitoring: edit histories followed in a reference table after every step",
 note="Values are tokens, and quoted text for media types and Authorization; behaviour at the count limit is C11's.")
prop("C13", "Security agreement settles on the best mechanism both sides list",
 """Security-Client, Security-Server and Security-Verify lists read back as the mechanisms, parameters and preferences they were made from, in their order, whatever the spacing and letter case.
Ranking orders by preference (0.001 when none is given) and keeps the given order among equals; the agreed mechanism is the server's entry with the highest combined preference among those the client lists too, the earlier one on a tie, and none when nothing is common; verification succeeds exactly when the mechanism is listed.
Preferences outside 0 to 1 are refused.""",
 ["inputs"], "all pairs of lists over known and other mechanisms, preferences and parameters, in any spelling",
 "tests agree on one mechanism from short lists with distinct preferences",
 ["crates/sip-core/src/security.rs"],
 [("SecurityServerHeader::find_best_match", "crates/sip-core/src/security.rs")],
 "h-core", technique="runtime monitoring: generated lists compared with a reference computed on exact thousandths",
 note="Where two different pairs of preferences have the same product any of them may win. Preferences have at most three decimals.")
prop("K01", "Test-kit messages are complete SIP and carry what was asked",
 """Every message the test kit builds has the headers its kind requires (Via with an RFC 3261 branch, From with tag, To, Call-ID, matching CSeq, Max-Forwards in requests, correct Content-Length), carries the address, branch, call identifier, sequence number, code, reason and other values it was given, and is read by the parser as the same message.
The messages of a scenario fit together: calls, acknowledgements, subscriptions and realms refer to each other.""",
 ["inputs"], "all calls of the builders with valid arguments",
 "tests look at one message per builder",
 ["crates/sip-testkit/src/lib.rs"],
 [("build_*, scenario_*", "crates/sip-testkit/src/lib.rs")],
 "h-core", technique="runtime monitoring: generated calls, wire text judged by an independent splitter and the parser",
 note="The provisional response of a scenario keeps its own fixed call identifier; not judged.")
prop("A01", "Digest verification accepts exactly the correctly authenticated requests",
 """A request is authenticated only if its Digest response is the one RFC 7616 prescribes for the stored password of the named user in the server's realm, the request's own method, target and (for auth-int) body,
 a nonce the server issued, and the configured algorithm, qop and opaque value; anything altered, missing, downgraded or made for somebody else is refused, also when verified asynchronously.
 A correct one is accepted whatever the parameter order, letter case or spacing, alongside credentials for other realms, and no header text causes a panic.""",
 ["inputs"], "all algorithms, qop values, users, passwords, requests and single-field forgeries of them, plus mutated header text",
 "tests check one vector per algorithm; the forgeries that matter differ from a valid request in one field among many combinations",
 ["crates/sip-auth/src/lib.rs", "crates/sip-core/src/auth.rs", "crates/sip-parse/src/header_values.rs"],
 [("prepare_digest/verify/verify_async", "crates/sip-auth/src/lib.rs"), ("compute_response", "crates/sip-auth/src/lib.rs")],
 "h-auth", technique="runtime monitoring: independent RFC 7616 reference as oracle over generated requests and forgeries",
 note="The reference digest is the harness's own, checked against RFC 7616 and FIPS vectors; hash primitives come from the same crates the stack uses.")
prop("A02", "Nonces expire on time and no authenticated request is accepted twice",
 """A nonce is honoured from issue until its configured lifetime or idle window ends and never afterwards, with the matching stale indication, and under one nonce two different requests are never both accepted with the same count, nor one with a smaller, far-ahead or out-of-range count, in any order or concurrency of arrival,
 while retransmissions of the last accepted request are.
 Requests that fail authentication change nothing, so they cannot lock out or advance the genuine client. The nonce store never grows beyond its limit, makes room by dropping the oldest first, and never issues a value twice.""",
 ["histories", "schedules"], "all histories of challenges, good and bad attempts, retransmissions and clock advances, and concurrent contests of up to eight threads",
 "tests replay two requests in sequence; expiry, idle windows, count jumps, failures in between and simultaneous use interact",
 ["crates/sip-auth/src/lib.rs"],
 [("NonceManager, Nonce::validate_nc_with_request", "crates/sip-auth/src/lib.rs")],
 "h-auth", technique="runtime monitoring: state-model oracle over random histories under a virtual clock; exactly-once checker over concurrent contests",
 note="Model of the documented rules compared after each operation; thread interleavings are those the scheduler produced.",
 state=[("last nonce count, request hash and use time per nonce", "what has been accepted", "crates/sip-auth/src/lib.rs")])
prop("A03", "Challenges are complete and client and server authenticate each other",
 """Every challenge carries the right status, one fresh Digest challenge with the configured realm, algorithm, qop and opaque value, and the request's Via list, From, Call-ID, CSeq and a tagged To. The stack's own client answers it so that the server (and any RFC 7616 server) accepts, request after request,
 and the client accepts the server's Authentication-Info exactly when the server knows the password and it was made for this exchange.
 Attempts beyond the configured limit per source are refused before any password is examined, without affecting other sources, and passwords never appear in diagnostic output.""",
 ["inputs", "histories"], "all challenged requests (Via lists, To forms), algorithms, qop values, multi-request exchanges, forged server answers and attempt sequences from several sources",
 "tests run one exchange per algorithm with a single Via and plain To; combinations and forged server replies are not sampled",
 ["crates/sip-auth/src/lib.rs", "crates/sip-ratelimit/src/lib.rs"],
 [("challenge/challenge_stale", "crates/sip-auth/src/lib.rs"), ("DigestClient, AuthInfo", "crates/sip-auth/src/lib.rs")],
 "h-auth", technique="runtime monitoring: protocol-exchange monitor with independent reader and digest reference",
 note="Exchanges run the real client against the real server; both sides are also compared with the reference.")
# Rate limiting and observability -------------------------------------------
prop("R01", "Rate limits admit exactly the configured rate, per key",
 """Each source may make its configured burst and then its configured number of requests per window, never more and never noticeably less, in every pattern of arrivals, independently of all other sources and exactly also when many threads ask at once; disabled limiters never refuse.
 The reported limit, remaining allowance and retry delay are true: waiting as long as told makes the whole burst available. Malformed keys are refused and never tracked, idle and reset sources start afresh,
 the number of tracked sources stays bounded without starving tracked ones, refusal logging is throttled to once per interval, and the counters add up.""",
 ["histories", "schedules"], "all histories of checks, clock advances, resets and cleanups under all configurations, and concurrent contests",
 "tests check a burst and one refill; drift, fractional intervals, idle cleanup and simultaneous requests need long histories under a controlled clock",
 ["crates/sip-ratelimit/src/lib.rs"],
 [("TokenBucket::refill/try_consume", "crates/sip-ratelimit/src/lib.rs"), ("cleanup_idle, get_limit_info, should_log_blocked", "crates/sip-ratelimit/src/lib.rs")],
 "h-rate", technique="runtime monitoring: reference token bucket compared online under a virtual clock; conservation checker over thread contests",
 note="One token of phase is allowed against the continuous reference; interleavings are those the scheduler produced.",
 state=[("tokens and last refill per source", "allowance left", "crates/sip-ratelimit/src/lib.rs")])
prop("O01", "Sampled transport metrics emit exactly what they promise",
 """Sampled transport metrics emit exactly the first of every N calls, at most once per minimum interval, also under concurrent calls, each event with its transport, stage, operation and value; unsampled metrics emit one event per call.
 Label texts convert both ways exactly, other texts are refused with an accurate reason and never panic, and exactly one metrics sink can ever be installed, which then receives every call.""",
 ["histories", "schedules"], "all call and clock schedules for all sampling settings, concurrent callers, and all label texts",
 "tests count a few sequential calls; the interaction of sampling, interval and concurrent callers is not sampled",
 ["crates/sip-observe/src/lib.rs"],
 [("should_emit", "crates/sip-observe/src/lib.rs"), ("label conversions, set_transport_metrics", "crates/sip-observe/src/lib.rs")],
 "h-rate", technique="runtime monitoring: event counting subscriber with a sampling model under a virtual clock, and thread contests",
 note="Events are observed through a tracing subscriber; the process-wide sink is raced once per run.")
# Registrar -------------------------------------------------------------------
prop("G01", "The location service holds exactly what accepted registrations ask for",
 """After every registration request the bindings of each address are exactly those RFC 3261 prescribes: each contact added, refreshed or removed with its own lifetime, q value, instance, path and user agent, all of a request or none of it, outdated requests and unacceptable lifetimes refused without effect,
 expired bindings gone on time, and at most twenty bindings per address and a bounded total, which refreshes and expired bindings never exhaust.
 Responses list exactly the bindings with their remaining lifetimes and copy the request's identifying headers; equal spellings of an address share its bindings and other addresses are unaffected, in the blocking and the asynchronous interface alike.""",
 ["inputs", "histories"], "all histories of registrations (contact and address spellings, lifetimes, wildcards, retransmitted and outdated requests) and clock advances",
 "tests register one or two literal contacts; quoting, several contacts per request, order and expiry combine over long histories",
 ["crates/sip-registrar/src/lib.rs"],
 [("BasicRegistrar::handle_register, handle_register_async", "crates/sip-registrar/src/lib.rs"), ("MemoryLocationStore", "crates/sip-registrar/src/lib.rs"), ("normalize_aor", "crates/sip-registrar/src/lib.rs")],
 "h-reg", technique="runtime monitoring: executable location-service model compared after every request under a virtual clock",
 note="Every binding field and every response header is compared with the model after each request.",
 state=[("bindings per address of record", "who can be reached where, and until when", "crates/sip-registrar/src/lib.rs")])
prop("G02", "Only the authenticated owner of an address changes its registrations",
 """With authentication enabled, a registration takes effect only if it carries correct credentials of the user who owns the address in the To header; missing, wrong, forged or borrowed credentials are challenged, other users' addresses (and addresses without a user) are forbidden, and neither changes anything.
 Extra credentials for other realms or in other headers neither help nor hinder. With rate limiting, requests beyond a source's limit are answered 503 and change nothing.""",
 ["inputs", "histories"], "all combinations of users, addresses and their spellings, credential sets and sources, over histories of requests",
 "tests stub the authenticator; which of several credentials is verified and which name is authorized only diverge for unusual requests",
 ["crates/sip-registrar/src/lib.rs", "crates/sip-auth/src/lib.rs"],
 [("authorization step of handle_register", "crates/sip-registrar/src/lib.rs"), ("verify, authenticated_username", "crates/sip-auth/src/lib.rs")],
 "h-reg", technique="runtime monitoring: access-control monitor over the location service with independently computed credentials",
 note="Credentials are computed by the harness; ownership classes (letter case, Unicode forms) are fixed by the harness.",
 state=[("bindings per address of record", "what must not change without the owner", "crates/sip-registrar/src/lib.rs")])
prop("G03", "Concurrent registrations behave as if handled one after another",
 """Whatever the interleaving of simultaneous registrations, blocking or asynchronous and with slow or adapted stores, their outcomes and the final bindings are those of some one-after-another order: no update is lost, no outdated request overwrites a newer one, each request takes effect as a whole, and the per-address limit holds exactly.""",
 ["schedules", "histories"], "all interleavings of up to six simultaneous registrations with random yields inside the store",
 "tests are sequential; lost updates need two requests between each other's check and update",
 ["crates/sip-registrar/src/lib.rs"],
 [("handle_register read-check-update", "crates/sip-registrar/src/lib.rs"), ("AsyncToSyncAdapter, SyncToAsyncAdapter", "crates/sip-registrar/src/lib.rs")],
 "h-reg", technique="runtime monitoring: linearizability checker over recorded concurrent histories with injected delays",
 note="Every contest's recorded history is searched for a serial explanation; interleavings are those produced under injected yields.",
 state=[("bindings per address of record", "shared by all requests", "crates/sip-registrar/src/lib.rs")])
# Dialogs ------------------------------------------------------------------
prop("D01", "Dialogs record what was negotiated and match only their peer's requests",
 """A dialog comes into being exactly when a provisional or successful response carries both tags and everything is within the documented limits, and then holds the Call-ID and tags from its own side's point of view, the state the status implies, the peer's Contact as target,
 the Record-Route entries in the order its role requires, the request's CSeq, the security of its addresses and the agreed session timer, whatever quoted names, parameters or lists the headers contain.
 A later request is matched to it exactly when it comes from its peer (same Call-ID, tags mirrored), among any number of similar dialogs, and no header text causes a panic.""",
 ["inputs"], "all INVITE, SUBSCRIBE and REFER exchanges over both roles with hostile header spellings and limit values, and requests differing in one identifying part",
 "tests build dialogs from plain headers; tags and routes hidden in quoted names, parameters and lists are not sampled",
 ["crates/sip-dialog/src/lib.rs"],
 [("Dialog::new_uac/new_uas", "crates/sip-dialog/src/lib.rs"), ("extract_tag, build_route_set", "crates/sip-dialog/src/lib.rs"), ("matches_request, find_by_request", "crates/sip-dialog/src/lib.rs")],
 "h-dialog", technique="runtime monitoring: generated exchanges with an independent dialog model as oracle",
 note="Messages are written as text and parsed by the stack; every accessor is compared with the generator's model.")
prop("D02", "In-dialog requests and responses change a dialog only as RFC 3261 allows",
 """Over any history, a dialog accepts a request only if its CSeq is higher than every earlier one, in range and at most 1000 ahead (an ACK only for the latest INVITE), and a refused request changes nothing; its own CSeq numbers rise by one each time.
 The peer's target moves only with target-refresh requests and non-failure responses, the route set changes only when a success confirms an early dialog, session timer values outside the documented range are never adopted, and states go only from early to confirmed to terminated, never back.
 Its identity, addresses, role and security never change.""",
 ["histories", "inputs"], "all histories of up to forty in-dialog requests, responses, local requests and state changes, with boundary CSeq values",
 "tests send two or three messages; interplay of methods, failures, retransmissions and route or timer headers needs long histories",
 ["crates/sip-dialog/src/lib.rs"],
 [("update_from_request/update_from_response", "crates/sip-dialog/src/lib.rs"), ("validate_cseq_increment", "crates/sip-dialog/src/lib.rs")],
 "h-dialog", technique="runtime monitoring: reference dialog compared after every step of random histories",
 note="Every observable field is compared after each step; verdicts must agree with the reference.",
 state=[("state, target, routes, CSeq numbers, timer", "what in-dialog requests are built from", "crates/sip-dialog/src/lib.rs")])
prop("D03", "Dialog collections keep every dialog once, within exact limits",
 """The dialog manager and the dialog store always hold exactly the dialogs put in and not taken out, each once, findable by identity and by Call-ID, after any sequence of operations and any interleaving of threads.
 The limits on dialogs and on early dialogs per Call-ID are never exceeded and never refuse what fits, a full manager still updates dialogs it holds, and dialogs created minus dialogs ended always equals dialogs held.""",
 ["histories", "schedules"], "all operation sequences over colliding identities, near the limits, and contests of up to eight threads",
 "tests insert a few dialogs sequentially; index corruption and counter drift need overwrites, removals and interleavings",
 ["crates/sip-dialog/src/lib.rs", "crates/sip-dialog/src/storage.rs", "crates/sip-dialog/src/metrics.rs"],
 [("DialogManager::insert/remove/cleanup_terminated", "crates/sip-dialog/src/lib.rs"), ("InMemoryDialogStore", "crates/sip-dialog/src/storage.rs")],
 "h-dialog", technique="runtime monitoring: keyed-collection model after every step; conservation and limit checkers over thread contests",
 note="Contest interleavings are those the operating system produced.",
 state=[("dialogs and Call-ID index", "which calls exist", "crates/sip-dialog/src/storage.rs")])
prop("D04", "Subscriptions record their agreement and are kept within an exact limit",
 """A subscription records exactly the Call-ID, tags, event, target, addresses and lifetime its SUBSCRIBE exchange agreed on (the answer's lifetime taking precedence), and its own CSeq numbers rise by one.
 Identifiers outside the documented lengths or containing control characters are refused and no text causes a panic.
 The subscription manager holds exactly what was put in and not taken out, lists it by event, removes exactly the terminated ones on clean-up, and enforces its limit exactly, also under concurrent insertion, while still updating what it holds.""",
 ["inputs", "histories", "schedules"], "all SUBSCRIBE exchanges and identifier texts, operation sequences near the limit, and contests of up to eight threads",
 "tests use one literal subscription; hostile text, precedence of lifetimes and limits under contention are not sampled",
 ["crates/sip-dialog/src/lib.rs"],
 [("Subscription::new_notifier/new_subscriber", "crates/sip-dialog/src/lib.rs"), ("SubscriptionManager", "crates/sip-dialog/src/lib.rs")],
 "h-dialog", technique="runtime monitoring: field-model and keyed-collection oracles over generated exchanges, histories and thread contests",
 note="Contest interleavings are those the operating system produced.")
prop("D05", "Reliable provisional responses are acknowledged exactly once",
 """A PRACK is accepted exactly when its RAck names the response number, request number and method of a reliable provisional response pending in that dialog, and only once, also when copies arrive simultaneously.
 At most ten responses per dialog are remembered, the newest being kept, each for at least five minutes and none for ever; other dialogs are unaffected.
 Response numbers start at random within 1 to 2^31-1 and rise by exactly one per dialog, without gaps or repeats under concurrent use, and RAck values print and read back unchanged.""",
 ["histories", "schedules", "inputs"], "all histories of registrations, PRACKs (matching and off by one part), removals and clock advances, and contests of up to eight threads",
 "tests acknowledge one response; eviction, expiry, duplicates and simultaneous copies interact over histories",
 ["crates/sip-dialog/src/prack_validator.rs", "crates/sip-dialog/src/lib.rs"],
 [("PrackValidator", "crates/sip-dialog/src/prack_validator.rs"), ("RSeqManager", "crates/sip-dialog/src/lib.rs")],
 "h-dialog", technique="runtime monitoring: pending-set model under a virtual clock, exactly-once checker over thread contests",
 note="Entries between five and ten minutes old may or may not still be pending, as clean-up is lazy; both are accepted.")
prop("D06", "Session timers fire exactly when due and never after being replaced",
 """A running session timer asks for a refresh at half its interval if and only if this side is the refresher, and reports expiry exactly once at its full interval; a timer stopped, replaced or refreshed before that moment, even just as it comes due, reports nothing more and never disturbs its successor.
 Remaining time, activity and the timer count are always true, and the limit on timers holds, also when starts are simultaneous.
 Negotiated intervals are never below either side's minimum nor above what was requested, and the refresher role is read in any letter case.""",
 ["histories", "schedules", "inputs"], "all histories of starts, refreshes, stops and clears at arbitrary and exactly due moments, and races of up to five tasks",
 "tests wait once for one timer; operations landing just as a timer comes due are never hit by chance",
 ["crates/sip-dialog/src/session_timer_manager.rs"],
 [("SessionTimerManager", "crates/sip-dialog/src/session_timer_manager.rs"), ("negotiate_session_expires", "crates/sip-dialog/src/session_timer_manager.rs")],
 "h-dialog", technique="runtime monitoring: trace checker over timer reports under virtual time with operations aimed at due moments, and real-time task races",
 note="Reports are judged with a three-millisecond tolerance of virtual time.")
prop("D07", "Dialog metrics count every event once",
 """Whatever handles record them, from however many threads, every dialog event is counted exactly once in its own count and in no other, the time of the last event is kept, and separate sets stay separate.
A reader running at the same time never sees a count fall, a count exceed what was recorded, or counts from different moments mixed.""",
 ["inputs", "schedules"], "all event sequences over shared and separate sets, alone and from several threads with a concurrent reader",
 "tests record a few events in one thread",
 ["crates/sip-dialog/src/metrics.rs"],
 [("DialogMetrics", "crates/sip-dialog/src/metrics.rs")],
 "h-dialog", technique="runtime monitoring: event sums compared with every snapshot, conservation and torn-view monitors under concurrent writers",
 note="Thread schedules are the machine's; several hundred (quick) to thousands (thorough) of runs.")
prop("S01", "Session descriptions are read and written without loss",
 """A session description read by the SDP library holds exactly what its lines say (origin, times with their repeats, bandwidths, addresses, keys, streams with ports, protocols and formats, attributes in order with their values), and writing it gives a text that reads back the same; what the builders accept is likewise written so that it reads back.
 Malformed lines, lines continued on the next or with anything left over, missing mandatory lines and control characters are refused.
 No text causes a panic.""",
 ["inputs"], "all session descriptions over every line type and attribute form, with damage, merged and split lines, hostile characters and builder calls",
 "tests read a few well-formed descriptions; lines merging, prefixes of protocol names and damaged lines are not sampled",
 ["crates/sip-sdp/src/parse.rs", "crates/sip-sdp/src/types.rs", "crates/sip-sdp/src/serialize.rs", "crates/sip-sdp/src/lib.rs"],
 [("parse_sdp", "crates/sip-sdp/src/parse.rs"), ("serialize_sdp", "crates/sip-sdp/src/serialize.rs"), ("SdpSession, MediaDescription", "crates/sip-sdp/src/lib.rs")],
 "h-sdp", technique="runtime monitoring: generated descriptions with an independent document model as oracle; re-reading checker over damaged text",
 note="Only the last of several email or phone lines is kept by this library; that is not judged.")
prop("S02", "Negotiated answers agree with the offer and with local policy",
 """An answer computed by the SDP library accepts a stream only with codecs that both sides name alike (name, clock rate, channels), under the payload types and parameters that stand for them in the offer; it answers each offered stream in its place, a stream offered with port zero or without common codec with port zero, and a direction with its mirror image restricted to what is locally allowed, inherited from the session where the stream names none.
 The result is deterministic, and rejected streams keep type and protocol.
 No offer causes a panic.""",
 ["inputs"], "all offers and local capabilities over static and dynamic payload types, clashing numbers, several streams, session-level directions and boundary ports",
 "tests negotiate single audio streams with standard payload types; renumbered codecs, inherited directions and inactive streams are not sampled",
 ["crates/sip-sdp/src/negotiate.rs", "crates/sip-sdp/src/profiles.rs"],
 [("negotiate_answer", "crates/sip-sdp/src/negotiate.rs"), ("profiles::negotiate_answer", "crates/sip-sdp/src/profiles.rs")],
 "h-sdp", technique="runtime monitoring: generated offer and policy pairs with an independent negotiation model as oracle",
 note="The profile answers keep only the streams they negotiate (an existing test pins this); there only the accepted streams are judged.")
prop("S03", "The SIP core's session descriptions are read and written without loss",
 """A session description read by the SIP core holds exactly what its lines say, including identifiers of streams, groups, capabilities, preconditions and the control port, gives the right view of payload mappings, parameters, directions and whether preconditions are met, and is written back as a text with the same meaning that reads back equal.
 Malformed, misplaced or missing mandatory lines, control characters and anything over a documented bound are refused, and the bound itself is not.
 No text causes a panic.""",
 ["inputs"], "all session descriptions over every line type and attribute form, with damage, every documented bound and one more, and hostile characters",
 "tests read a few well-formed descriptions and a few bounds",
 ["crates/sip-core/src/sdp.rs"],
 [("SdpSession::parse", "crates/sip-core/src/sdp.rs"), ("Display for SdpSession", "crates/sip-core/src/sdp.rs"), ("are_preconditions_met", "crates/sip-core/src/sdp.rs")],
 "h-sdp", technique="runtime monitoring: generated descriptions with an independent document model as oracle; re-reading checker over damaged text",
 note="Format tokens are bounded at 16 characters by the reader; longer ones are its documented refusal.")
prop("S04", "Every offered stream is answered in its place; hold changes directions only",
 """The offer/answer engine answers every offered stream in its place with its type, protocol and identifier: accepted with an own, unused port, exactly the offered formats whose codec is also supported locally, in the offered order with the offered mapping and parameters, the mirrored or configured direction and mirrored preconditions, or rejected with port zero (on request, offered with port zero, nothing in common, no port left).
 Hold and resume offers raise the version by one and change directions only, as often as repeated.
 Whatever is produced reads back equal; option values over their bounds or with control characters are refused, and no offer causes a panic.""",
 ["inputs", "histories"], "all offers and options over codecs, channels, directions at both levels, preconditions, rejections and ports up to the last, and sequences of holds and resumes",
 "tests answer single streams with default options",
 ["crates/sip-core/src/sdp_offer_answer.rs"],
 [("OfferAnswerEngine::generate_answer", "crates/sip-core/src/sdp_offer_answer.rs"), ("create_hold_offer/create_resume_offer", "crates/sip-core/src/sdp_offer_answer.rs")],
 "h-sdp", technique="runtime monitoring: generated offers, options and hold sequences with an independent answer model as oracle",
 note="A local codec without a channel count against an offered count of one is not judged.")
prop("S05", "Offers from profiles say what was asked; directions and codes are the RFCs'",
 """An offer made from a media profile or by builder calls lists exactly the codecs, payload types, telephone events, direction, multiplexing, ports, origin and address asked for, video on the audio port plus two unless given, and reads back as the same text.
Directions reverse, agree and combine as sending and receiving do; static payload types have the names, rates, channels and kinds of RFC 3551, found by number and by name in any letter case.""",
 ["inputs"], "all profiles, builder call sequences, pairs of directions and payload type numbers",
 "tests build one or two profiles and look at some lines",
 ["crates/sip-sdp/src/profiles.rs", "crates/sip-sdp/src/negotiate.rs", "crates/sip-sdp/src/lib.rs", "crates/sip-core/src/rtp_avp.rs"],
 [("MediaProfileBuilder::build/create_from_profile", "crates/sip-sdp/src/profiles.rs"), ("Direction::negotiate", "crates/sip-sdp/src/negotiate.rs"), ("get_static_payload_type", "crates/sip-core/src/rtp_avp.rs")],
 "h-sdp", technique="runtime monitoring: generated profiles and calls, text judged by an independent line scanner, RFC tables as oracle",
 note="The session name, the session identifier's value and feedback lines about listed formats are free.")
prop("I01", "Caller identity tokens say what was signed; nothing altered passes",
 """A signed caller-identity token decodes to exactly the claims, attestation, numbers, names and times it was signed with, its signature holds under the signer's key and under no other, and its Identity header reads back with the token, the certificate address, the algorithm and the type it was written with, whatever the order, spacing and case of parameters.
 A token altered in any byte of its header, claims or signature fails; tokens that are no caller-identity tokens (algorithm, type, missing or ill-typed claims, encoding, size) are refused.
 No text causes a panic.""",
 ["inputs"], "all claims, keys, header forms, byte alterations and hostile tokens",
 "tests sign one claim set with one key and try a few alterations",
 ["crates/sip-identity/src/passport.rs", "crates/sip-identity/src/header.rs", "crates/sip-identity/src/sign.rs", "crates/sip-identity/src/verify.rs"],
 [("Passport::decode", "crates/sip-identity/src/passport.rs"), ("IdentityHeader::parse", "crates/sip-identity/src/header.rs"), ("sign", "crates/sip-identity/src/sign.rs"), ("Passport::verify_signature", "crates/sip-identity/src/verify.rs")],
 "h-id", technique="runtime monitoring: round trips of generated claims with an independently written decoder and signature oracle; alteration checker over signed tokens",
 note="Repeated parameters or repeated JSON keys are not judged.")
prop("I02", "A caller identity is accepted only with a certificate path to an anchor",
 """A caller-identity token is accepted exactly when its signature holds under the first certificate presented and a chain of the presented certificates leads from it to a configured trust anchor, each certificate being in its validity period at the given time, signed by the next, and each issuer being an authority within its path length and usage.
 A foreign, expired, not yet valid, non-authority or altered certificate, one of another key, or an empty list is refused, as is a token whose claims or signature were altered.
 No certificate bytes cause a panic.""",
 ["inputs"], "all chains over depth, order, extra certificates, validity windows, authority flags, path lengths, key types and alterations",
 "tests verify one valid chain and a few failures",
 ["crates/sip-identity/src/chain.rs", "crates/sip-identity/src/verify.rs"],
 [("Passport::verify_with_chain", "crates/sip-identity/src/chain.rs")],
 "h-id", technique="runtime monitoring: generated certificate trees with a path model as oracle",
 note="Validity of anchors and revocation are outside the library's contract and not judged.")
prop("N01", "A request goes where its URI and the DNS say",
 """The targets for a URI are those of RFC 3263: a numeric address is used as it is, a port in the URI leads to the addresses of the host, otherwise the service records named by the NAPTR records (by order and preference) or the usual service names are used by priority, and addresses with the default port where there are none; transports follow the URI's parameter or the records, secure URIs never lead to insecure transports, and the name to authenticate stays the one asked for.
 Records of equal priority are ordered by chance in proportion to their weights.
 Missing names, failing or silent servers yield an error or the next step in bounded time, never a panic or a foreign target.""",
 ["inputs", "faults"], "all URIs (schemes, ports, transports, numeric hosts) against zones with any mix of NAPTR, SRV, A and AAAA records and failing answers",
 "tests use static resolvers only; no test resolves against a name server",
 ["crates/sip-dns/src/lib.rs"],
 [("SipResolver::resolve", "crates/sip-dns/src/lib.rs"), ("weighted shuffle", "crates/sip-dns/src/lib.rs")],
 "h-dns", technique="runtime monitoring: the real resolver against a scripted name server on loopback, with an independent RFC 3263 model as oracle and fault injection (errors, silence)",
 note="Service names for web sockets, the NAPTR 'a' flag and unknown transports are not judged.")
prop("N02", "Servers named by DHCP and numbers mapped by ENUM mean what was sent",
 """DHCP server options are read as exactly the names or addresses they encode, and anything cut short, left over, empty or of unknown encoding is refused; discovery uses the named servers in their order, addresses with the default port and the transport of the URI, names through DNS with the URI's scheme and parameters but not its port, leaves out what does not resolve, and falls back to DNS only when DHCP yields nothing.
 A telephone number is asked for under its digits reversed, only global numbers qualify, and the record chosen is a SIP record of lowest order and preference.
 Host names that are empty, over 253 characters or hold control characters are refused, and no data causes a panic.""",
 ["inputs", "faults"], "all option data with damage, all server lists, resolver failures and numbers",
 "tests read a few well-formed options and resolve one or two static servers",
 ["crates/sip-dns/src/lib.rs", "crates/sip-dns/src/enum_lookup.rs"],
 [("parse_dhcp_option_120/150/66", "crates/sip-dns/src/lib.rs"), ("DhcpResolver, HybridResolver", "crates/sip-dns/src/lib.rs"), ("enum_to_domain, select_best_sip_record", "crates/sip-dns/src/enum_lookup.rs")],
 "h-dns", technique="runtime monitoring: generated and damaged option data against an independent decoder; discovery driven by scripted providers with recorded queries",
 note="A substitution without its closing delimiter is accepted by design and not judged.")
prop("T01", "Transactions do what their RFC 3261 state machines do, in every history",
 """Every transaction, client or server, INVITE or not, on unreliable or reliable transport, sends, delivers, retransmits, times out, acknowledges and ends exactly as its RFC 3261 state machine says for any order and timing of requests, responses, acknowledgements, retransmissions and transport failures, also when duplicates arrive at the same moment.
 Each final response reaches the user once, each retransmission of a request is answered with the response last sent and reaches the user never, stray acknowledgements occupy nothing.
 Counts of started, ended, timed-out and retransmitting transactions agree with what happened, and once all timers are over nothing remains.""",
 ["histories", "schedules", "faults"], "all histories of arrivals, user responses, timer steps, transport failures and failovers, and duplicates handed in by concurrent tasks",
 "tests walk a handful of histories with real sleeps, single arrivals and working transports",
 ["crates/sip-transaction/src/manager.rs", "crates/sip-transaction/src/fsm.rs", "crates/sip-transaction/src/lib.rs", "crates/sip-transaction/src/timers.rs", "crates/sip-transaction/src/metrics.rs"],
 [("TransactionManager", "crates/sip-transaction/src/manager.rs"), ("ClientInviteFsm, ClientNonInviteFsm, ServerInviteFsm, ServerNonInviteFsm", "crates/sip-transaction/src/fsm.rs"), ("branch_from_via", "crates/sip-transaction/src/lib.rs"), ("TransactionMetrics", "crates/sip-transaction/src/metrics.rs")],
 "h-net", technique="runtime monitoring: recorded dispatches, deliveries and metrics of the real manager on a paused clock checked online against a reference state machine with its own timers; concurrent duplicate stress",
 note="A failing 2xx dispatch may count as completed or failed; events due at one instant may come in either order. Server transactions are matched without sent-by (known finding).")
prop("P01", "A forked call gets one outcome, and its losing branches one CANCEL each",
 """A call forked to several targets (at once or one after another) sends each target one request with a branch of its own, forwards provisional responses and every 2xx, and forwards exactly one other final response at most: a 6xx, or when all branches ended the one of the best class, the proxy's own responses bearing the caller's Vias.
 Every branch that has lost is cancelled once with the branch it was sent with and none that answered finally; a branch without an answer for Timer C since its last provisional response is over.
 Responses handed in at the same moment are treated as in some order, and a finished or failed call leaves nothing behind.""",
 ["histories", "schedules", "faults"], "all histories of responses, timer steps, caller cancels and failing targets over one to several branches, sequential and parallel, and responses handed in by concurrent tasks",
 "tests fork to two or three targets with one response order each",
 ["crates/sip-proxy/src/service.rs", "crates/sip-proxy/src/stateful.rs", "crates/sip-proxy/src/cancel_ack.rs"],
 [("ProxyService::start_forking, process_response", "crates/sip-proxy/src/service.rs"), ("ProxyContext", "crates/sip-proxy/src/stateful.rs"), ("response_forwarding", "crates/sip-proxy/src/stateful.rs")],
 "h-net", technique="runtime monitoring: online trace checker with a model of the forked call over the messages the real proxy emits, on a paused clock; concurrent response stress checked for conservation (one final, one CANCEL a branch)",
 note="The response chosen within the best class, the tag of the proxy's own responses, and cancelling before a provisional response are not judged.")
prop("P02", "A proxy changes on what it forwards only what it has to",
 """A request is forwarded with the target as its address, one hop less (refused when none are left or the count is no number), the proxy's Via with a fresh branch on top of those there and, when asked, its Record-Route before those there, and otherwise as it came; the response goes back without the proxy's Via and otherwise as it came, however values are split over lines.
 A request that came back unchanged through this proxy is recognised as a loop and one to another target is not; routes are taken and targets swapped as loose and strict routing say, cancels match only their call and bear one Via, and targets are grouped by preference.
 No message, however malformed or full, causes a panic.""",
 ["inputs"], "all requests over numbers and spellings of Via, Route and Record-Route values, hop counts, full header lists and damage",
 "tests forward a few requests with one value per line",
 ["crates/sip-proxy/src/lib.rs", "crates/sip-proxy/src/stateful.rs", "crates/sip-proxy/src/cancel_ack.rs", "crates/sip-proxy/src/location.rs"],
 [("prepare_forward, prepare_response", "crates/sip-proxy/src/stateful.rs"), ("ProxyHelpers", "crates/sip-proxy/src/lib.rs"), ("RouteProcessor, AckForwarder, CancelForwarder", "crates/sip-proxy/src/cancel_ack.rs"), ("group_by_q_value", "crates/sip-proxy/src/location.rs")],
 "h-net", technique="runtime monitoring: generated messages with an independent model of RFC 3261 16.6/16.7/16.12 as oracle; panic monitor over damaged messages",
 note="A missing hop count may become 70 or 69; strict-route rewriting is given one Route value per line, as documented.")
prop("W01", "A stream server delivers exactly the messages a connection's bytes spell",
 """Whatever way a peer's bytes are cut into segments, a stream connection hands on exactly the complete messages they spell by header end and length, in order and once each with the right addresses, skips blank lines between them, and closes at the first malformed or oversized one after handing on those before it; every reply accepted for the connection is written back whole and in order before it ends, and every datagram is handed on as it came.
 An address holds at most 64 connections at a time and gets its places back when they end; connections that finish no message in time and established ones idle beyond the configured time are closed, others are not.
 Keep-alive pings go only between messages of established connections, and messages too big for a datagram are sent over a stream when one is to be had.""",
 ["inputs", "schedules", "faults"], "all byte streams over messages, blank lines, repeated, folded, compact and wrong lengths, damage, cuts and pauses, early ends, concurrent connections and replies",
 "tests split single buffers of one or two messages and open a connection or two",
 ["crates/sip-transport/src/lib.rs"],
 [("run_tcp, run_udp, send_udp", "crates/sip-transport/src/lib.rs"), ("drain_sip_frames, spawn_stream_session", "crates/sip-transport/src/lib.rs"), ("DefaultTransportPolicy", "crates/sip-transport/src/lib.rs")],
 "h-net", technique="runtime monitoring: the real servers over the loopback network under hostile segmentation, with each connection's recorded deliveries and replies checked against an independent framing model",
 note="The edge of the header limit (3 bytes), pings resetting the idle time, and folded lengths are not judged; TLS and WebSocket sessions share the framing but are not run.")
prop("W02", "Pooled connections carry each message once, in order, to the peer asked for",
"""Every message handed to the connection pool and accepted reaches its peer exactly once and whole, those of one caller in the order given, over a single connection per peer shared by all callers.
A peer that closed is noticed and the next message goes over a new connection; what peers send back over pooled connections is delivered with the right addresses; a peer that stops reading holds up nobody else's messages.
The pool never holds more connections than its limit, drops those idle beyond the set time and no others in use, and reports the number it really has.""",
["schedules", "faults", "histories"], "all interleavings of senders to several peers, closings, stalls, limits and idle times",
"tests send one or two messages over one connection",
["crates/sip-transport/src/pool.rs"],
[("ConnectionPool", "crates/sip-transport/src/pool.rs")],
"h-net", technique="runtime monitoring: the real pool against listening peers on the loopback network; offline checkers of exactly-once, order, connection count and delivery over recorded arrivals, with injected closes and stalls",
note="Messages in flight when a peer closes or a connection is evicted may be lost; TLS and WebSocket pools cannot be compiled offline.")
prop("U01", "Every answer of the user agent server fits its request",
 """Whatever well-formed request arrives, each response made for it has the asked status and repeats its Via and Record-Route values in order, its From, Call-ID, CSeq and To as they came, the To with exactly one tag (the request's, else a fresh one, none on 100), and the Contact, body and headers of its kind; it reads back the same from the wire, and no request makes answering fail badly.
 Accepting an INVITE or SUBSCRIBE makes the dialog or subscription the answer describes and keeps it; in-dialog requests are taken only with that dialog's Call-ID and both tags, BYE ends it, NOTIFYs go to the subscriber with rising CSeq, and nothing is accepted unauthenticated where credentials are demanded.
 Session intervals of 90 s and more below either side's minimum get 422 with that minimum, others the agreed interval and refresher; a reliable provisional response carries the dialog's tag and the next number, and exactly one matching PRACK is accepted.""",
 ["inputs", "histories"], "all requests over tags, display names, parameters, header forms and counts; all sequences of in-dialog requests, reliable responses, PRACKs and NOTIFYs",
 "tests build a dozen plain requests and look at single headers of the answers",
 ["crates/sip-uas/src/lib.rs", "crates/sip-dialog/src/lib.rs"],
 [("UserAgentServer", "crates/sip-uas/src/lib.rs"), ("Subscription::new_notifier, PrackValidator", "crates/sip-dialog/src/lib.rs")],
 "h-net", technique="runtime monitoring: generated requests written as wire text, every response compared with what was written; trace monitors over dialogs, PRACK and NOTIFY sequences",
 note="Intervals below 90 s are ignored by design (a unit test says so) and not judged; nor are more than ten unacknowledged reliable responses.")
prop("U02", "Every request of the user agent client is complete and means what was asked",
"""Each request the client builds carries the method, target, dialog identity, body and extras asked for, a fresh branch, one of every mandatory field, the client's own address where it names itself, and no unescaped text from names or values; requests inside a dialog keep its Call-ID, tags and route set with rising CSeq, and registrations of one client share a Call-ID with rising CSeq.
A challenge is answered with credentials for that very challenge that a server holding the password accepts, kept apart per realm and proxy, with a new branch and the next CSeq, the rest of the request unchanged; odd or useless challenges are refused without panic.
A service route learnt at registration is followed by later requests in its order.""",
["inputs", "histories"], "all targets, names, dialogs, route sets, challenges with one or several realms and algorithms, answers and registration sequences",
"tests build plain requests and look at single headers; challenges come one at a time with a single algorithm",
["crates/sip-uac/src/lib.rs", "crates/sip-uac/src/auth_utils.rs"],
[("UserAgentClient", "crates/sip-uac/src/lib.rs"), ("challenge handling", "crates/sip-uac/src/auth_utils.rs")],
"h-net", technique="runtime monitoring: every built request is written, read back and compared with what was asked; credentials recomputed by an independent digest oracle; freshness and CSeq monitors over histories",
note="ACK's branch and Request-URI at this layer, the nonce count's scope (per client, not per nonce), and quotes or escapes in user names and realms are not judged.")
prop("H01", "Every message crossing a transport is mirrored for capture, once and as it was",
"""Every SIP message a transport delivers or sends is handed to the capture sink exactly once, in order per connection, with the bytes as they were (cut to the documented limit), its direction, protocol and the two addresses it went between; keepalives, fragments and messages dropped over the rate limit are not.
The Call-ID given with a capture is the message's own, in whatever legal form the header is written, and none when there is none.
With or without capture the same messages are delivered, and the per-address limit on incoming messages holds back only the address that exceeded it.""",
["inputs", "schedules", "faults"], "all messages and header spellings, splits into segments, connections and senders over their limit",
"tests check one message's Call-ID and that emitting does not panic; no test watches a transport with a sink",
["crates/sip-hep/src/headers.rs", "crates/sip-hep/src/emitter.rs", "crates/sip-transport/src/lib.rs", "crates/sip-transport/src/pool.rs"],
[("SipHepEmitter", "crates/sip-hep/src/emitter.rs"), ("run_udp, run_tcp, send_udp, send_stream", "crates/sip-transport/src/lib.rs")],
"h-net", technique="runtime monitoring: the real transports on the loopback network with a recording collector; offline exactly-once, order and content checkers over what was sent, delivered and mirrored",
note="TLS and WebSocket transports cannot be compiled offline; the collector library itself is a stand-in (its source is not available), so the wire encoding of captures is not judged.")
