prop("P01", "The upstream sync position never outruns durably stored data",
 "A device's upstream sync token is only advanced, in memory or in the database, after every part of the response it covers has been handed to storage and either succeeded or failed for a reason that retrying cannot cure. A response whose storage failed with a retriable error (anything but malformed upstream data) is fetched and processed again from the old position, so no event, room state, invite, leave, to-device message, account data, device-list change or key count is skipped.",
 ["fault_sequences", "crash_points", "inputs"], "For every upstream response, every subset of storage calls failing, and a crash between any two steps.",
 "The poller tests inject at most one error from one callback; they do not enumerate every callback and every call path between the database and the poller, nor a crash between storing and saving the position.",
 ["sync2/poller.go", "sync2/devices_table.go", "sync2/handler2/handler.go", "internal/errors.go", "state/accumulator.go", "state/event_table.go"],
 [("poll loop: parse everything, then decide to retry, then advance", "sync2/poller.go (*poller).poll"),
  ("retry classification by error type", "sync2/poller.go shouldRetry; internal/errors.go DataError"),
  ("serialised callbacks hand the error back", "sync2/poller.go PollerMap.*")],
 [("since", "upstream position a poller will resume from", "sync2/poller.go pollLoopState.since, devices.since")],
 ["sync2 client DoSyncV2 argument", "syncv3_sync2_devices.since"])
check("P01", "interprocedural path analysis of storage errors up to the position advance")
prop("P02", "Updates are stored before they are announced, and announced once stored",
 "Live connections are told about a change only after that change has been committed to the database, are never told about a change whose storage failed, and are always told about one that was stored. A storage failure is reported to the poller rather than swallowed.",
 ["schedules", "fault_sequences", "inputs"], "For every kind of upstream update, every storage failure point and every interleaving of pollers with connections.",
 "The integration tests observe final responses on the success path; the announce-before-commit window and the failure paths are not exercised.",
 ["sync2/handler2/handler.go", "state/storage.go", "pubsub/v2.go"],
 [("each callback stores, returns on error, then notifies", "sync2/handler2/handler.go (*Handler).*")], None, ["pubsub channel v2", "v3 responses"])
check("P02", "interprocedural path analysis: store, error and announce ordering")
prop("P03", "Each device is polled once at a time and shared room data is updated serially",
 "At most one poller is active per device, for every number and interleaving of connection requests and poller restarts. Updates from different pollers which touch data shared between devices (room timelines, room state, receipts, typing, invites, leaves, account data) are applied one after another, each completely, and each caller waits for its own update's outcome.",
 ["schedules"], "For every interleaving of pollers, connection requests, expirations and terminations.",
 "Races between two pollers for one device or two rooms' updates need a particular interleaving; tests run pollers one at a time.",
 ["sync2/poller.go"],
 [("one executor goroutine runs shared callbacks", "sync2/poller.go PollerMap.execute"), ("a map of running pollers under a mutex", "sync2/poller.go PollerMap.EnsurePolling")],
 [("Pollers", "running pollers by device", "sync2/poller.go PollerMap.Pollers")], ["calls of the V2DataReceiver"])
check("P03", "path analysis of callback wrappers and of the poller registry's critical section")
prop("P04", "Multi-part storage updates are atomic",
 "Storing one upstream update either takes effect completely or not at all, wherever a failure, panic or crash falls: the parts of an update are written in one transaction, which is committed only when every part succeeded and rolled back otherwise, and no part of it is written or read outside that transaction.",
 ["crash_points", "fault_sequences"], "For every failure, panic or crash point inside a storage operation.",
 "Tests do not fail or crash between two statements of one operation, so a statement outside its transaction goes unnoticed.",
 ["sqlutil/sql.go", "state/accumulator.go", "state/storage.go", "state/device_data_table.go", "state/to_device_table.go", "sync2/handler2/handler.go"],
 [("commit-or-rollback helper", "sqlutil/sql.go WithTransaction"), ("transaction handed down as an argument", "state/*.go")], None, ["rows visible in PostgreSQL"])
check("P04", "effect analysis of SQL calls in transaction scope plus path analysis of the transaction helper")
prop("P05", "A database failure is never taken for an answer",
 "Whenever reading or writing the database fails, or a result set ends early because of an error, the operation reports the failure to its caller; it never continues with missing, partial or zero data as though the database had said so, except where the data is documented as best effort.",
 ["fault_sequences"], "For every storage operation and every point at which the database can fail, including in the middle of a result set.",
 "No test injects failures into individual database calls or truncates a result set.",
 ["state/*.go", "sync2/devices_table.go", "sync2/tokens_table.go", "sync2/txn_id_table.go", "sync2/handler2/handler.go", "sync3/handler/*.go"],
 [("errors are returned by every table accessor", "state/*_table.go"), ("result sets are checked after iteration", "state/*_table.go")], None, ["errors returned by storage functions"])
check("P05", "interprocedural error-flow analysis over every database call site")
prop("P06", "Room state snapshots follow the timeline",
 "A room acquires state only together with its create event; every new timeline event is stored with the state snapshot that held before it, every new state event produces exactly the next snapshot of its own room and records which event it replaced, and the room's current state is the snapshot after its last event. The state served as of a position is the snapshot before the last event up to that position with that event taken in: each current state event once, the event it replaced not at all. Superseded invites and space relations are brought up to date with the same update.",
 ["histories", "inputs"], "For every sequence of initial states and timelines of every room.",
 "Tests check a few hand-written timelines; a wrong snapshot on a mixed sequence of state and message events only shows later as wrong historical state.",
 ["state/accumulator.go", "state/event_table.go", "state/snapshot_table.go", "state/rooms_table.go"],
 [("snapshot per state event, before-snapshot per timeline event", "state/accumulator.go Accumulate"), ("first snapshot from the state block", "state/accumulator.go Initialise"), ("state as of a position", "state/storage.go RoomStateAfterEventPosition")],
 [("current_snapshot_id", "the room's current state", "syncv3_rooms")], ["RoomStateAfterEventPosition and room responses"])
check("P06", "path analysis with value provenance of the snapshot chain")
prop("P07", "Redactions take effect everywhere and only in their own room",
 "When a redaction is received, the stored copy of the redacted event is replaced by its redacted form if and only if the event belongs to the room the redaction was sent in, and an event which cannot be redacted is reported rather than kept. If the redacted event was part of the room's current state, cached room metadata is reloaded.",
 ["histories", "inputs"], "For every redaction event, in every room version, in any order relative to its target.",
 "The tests redact one event in one room; they do not redact across rooms, in the old and new redaction formats, or after failures.",
 ["state/accumulator.go", "state/event_table.go", "sync3/caches/global.go", "sync3/handler/handler.go"],
 [("redact target of each m.room.redaction in the timeline", "state/accumulator.go Accumulate"), ("rewrite the stored event", "state/event_table.go Redact"), ("reset the metadata cache", "sync3/caches/global.go")], None, ["events in v3 responses"])
check("P07", "path analysis with guard and value provenance tracking")
prop("P08", "Receiving the same data again changes nothing",
 "Upstream data that arrives more than once (from another device's poller, after a retry, or twice in one response) is stored and announced as new only once: an event already stored is never put on the timeline, made into room state or announced again, and repeated rows never make an update fail. For data with one current value per key (account data, receipts, invites, counts, key data) the latest delivery replaces the stored value completely, and readers waiting for changes see it as a change.",
 ["histories", "inputs"], "For every sequence of deliveries, including repeats of any part of any earlier response.",
 "Tests repeat a few hand-picked events; they do not repeat every kind of data in every position.",
 ["state/*_table.go", "state/accumulator.go"],
 [("conflict clauses on natural keys", "state/*_table.go"), ("only rows really inserted are announced", "state/accumulator.go Accumulate, state/event_table.go Insert"), ("duplicates in one timeline dropped", "state/accumulator.go parseAndDeduplicateTimelineEvents")], None, ["syncv3_* rows", "V2Accumulate payloads"])
check("P08", "analysis of SQL insert statements against table keys, and path analysis of what is treated as new")
prop("P09", "Private per-user and per-device data never reaches anyone else",
 "Account data, unread counts, invites, to-device messages, device lists, key counts and transaction IDs are only ever read, changed, deleted or delivered for the user (and, where it is per device, the device) they belong to. An identifier of one kind never stands in for another, and a connection's private data is always looked up under the connection's own identity.",
 ["inputs", "histories"], "For every user, device, room and request.",
 "Tests use one or two users and mostly one device, so a query missing one restriction returns the same rows.",
 ["state/*_table.go", "sync2/devices_table.go", "sync3/handler/handler.go", "sync3/connmap.go", "sync3/extensions/*.go"],
 [("every statement restricted by user and device", "state/*_table.go"), ("updates addressed to a user or device", "sync3/handler/handler.go On*"), ("connections keyed by user, device and connection ID", "sync3/connmap.go, sync3/conn.go ConnID")], None, ["v3 responses"])
check("P09", "tenancy analysis of SQL statements and identifier-role flow analysis over all call sites")
prop("P10", "Users only receive room content while they are members of the room",
 "Room events, state, receipts, typing, account data and other content of a room reach a user only if that user is joined to the room (or invited, and then only the stripped invite, or was a member until the very event that removed them). Asking for a room by ID, naming it in an extension, leaving and rejoining, being banned or kicked, or the room being upgraded never gives a non-member content, and content from after a member left stays hidden.",
 ["inputs", "histories", "schedules"], "For every room, membership history and request, including concurrent membership changes.",
 "Tests have members ask for rooms they are in; they do not enumerate every path by which room content enters a response, nor every membership history.",
 ["sync3/dispatcher.go", "sync3/tracker.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "sync3/extensions/*.go", "sync3/caches/user.go", "state/storage.go"],
 [("events dispatched to joined users", "sync3/dispatcher.go OnNewEvent"), ("joined rooms tracker", "sync3/tracker.go"), ("room subscriptions gated on membership", "sync3/handler/connstate.go buildRoomSubscriptions"), ("extension scope", "sync3/extensions/extensions.go")],
 [("joined rooms", "which users are in which rooms", "sync3/tracker.go JoinedRoomsTracker")], ["rooms and extensions of v3 responses"])
check("P10", "guard analysis with interprocedural value provenance of every room-content sink")
prop("P11", "Private read receipts stay private and public ones reach every member",
 "A private read receipt (m.read.private) is shown only to the user who sent it, on all of that user's devices, and keeps being private after it has been stored, reloaded and repacked; a public receipt is shown to every joined user. A new receipt is never lost: repacking leaves a receipt out only in favour of one by the same user on the same event.",
 ["inputs", "histories"], "For every receipt EDU, whatever mixture of public, private, threaded and unthreaded receipts of any number of users it holds.",
 "Tests use EDUs of one kind with one or two users; a receipt crossing from one table or marker to the other shows only for another user.",
 ["state/receipt_table.go", "sync3/dispatcher.go", "sync3/extensions/receipts.go", "sync3/handler/handler.go"],
 [("separate tables for private and public receipts", "state/receipt_table.go"), ("delivery by IsPrivate", "sync3/dispatcher.go OnReceipt"), ("packing", "state/receipt_table.go PackReceiptsIntoEDU")], None, ["the receipts extension of v3 responses"])
check("P11", "information-flow analysis of receipts by privacy class, table and recipient")
prop("P12", "Invited users learn only what the invite says",
 "A room which the user is invited to but has not joined is described to them by the stripped state of the invite alone (name, avatar, heroes, counts, topic and events of the real room never come through, neither in responses nor in live updates nor through extensions), and invite state is only ever sent for invites. The invited and left marks of a room follow the user's membership: a new invite, a departure, a ban, a rejection and a join each bring the room to the right status from any earlier one.",
 ["inputs", "histories", "schedules"], "For every invite, every membership history and every request, including rooms whose real state is known to the proxy because another user is joined.",
 "Tests invite users to fresh rooms; leaks need a room that is already shared with another user's state and a specific field or update path.",
 ["sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "sync3/caches/user.go", "sync3/caches/global.go", "sync3/dispatcher.go", "sync3/extensions/*.go"],
 [("invite data computed from invite state", "sync3/caches/user.go InviteData, NewInviteData"), ("marks on the user's room data", "sync3/caches/user.go OnInvite, OnLeftRoom")],
 [("IsInvite, HasLeft", "status of the room for one user", "sync3/caches/user.go UserRoomData")], ["rooms of v3 responses"])
check("P12", "field-level provenance analysis of room responses under the invite guard; path analysis of the status marks")
prop("P13", "Timelines have no silent gaps, no repeats and a matching pagination token",
 "The timeline of a room sent to a client is consecutive: it never spans a gap the homeserver reported, and its prev_batch token belongs at or after its oldest event so that paginating backwards reaches everything older. On one connection a room's position only moves forward: an event is sent live if and only if it lies beyond what was sent before, none is repeated and none is passed over.",
 ["histories", "schedules", "inputs"], "For every sequence of limited and ordinary timelines, malformed events, window changes and live updates.",
 "Tests use short timelines with at most one gap; repeats and gaps need a gap, redaction or window change at a particular point of the history.",
 ["state/accumulator.go", "state/event_table.go", "state/storage.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go"],
 [("missing_previous mark of the first event after a gap", "state/accumulator.go Accumulate"), ("cut at the gap", "state/event_table.go SelectLatestEventsBetween"), ("closest token at or after the oldest event", "state/event_table.go SelectClosestPrevBatch"), ("per-room load positions", "sync3/handler/connstate_live.go processLiveUpdate")],
 [("loadPositions", "newest event sent per room on this connection", "sync3/handler/connstate.go ConnState")], ["timeline, prev_batch of rooms in v3 responses"])
check("P13", "path analysis of marking, cutting and position updates; query analysis of limits and orders")
prop("P14", "Clients see their own transaction IDs and nobody else's",
 "An event in a timeline sent to a device carries a transaction ID if and only if that device sent the event and its poller has seen the ID (an ID may be missing, never wrong, when looking it up failed): the IDs are remembered per user, device and event, and an ID which was stored inside the event by some other device's poller is removed before the event is sent, for every event of every timeline (initial, live, and of old rooms). IDs which a poller sees are stored for its own user and device before the event is announced. A user's own message is held back, for a bounded time, until its ID is known or known never to come, and later events of that room do not overtake it; nothing else is held back and nothing is dropped.",
 ["inputs", "schedules", "histories"], "For every set of devices of every user, every order in which their pollers see an event, and every mixture of own and other events.",
 "Whether the sender's poller or another device's poller is first decides what is stored; a wrong or leaked ID needs two devices and a particular order, and the tests sample one order per case.",
 ["sync3/caches/user.go", "sync2/handler2/handler.go", "sync3/handler/txn_id_waiter.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "sync2/txnid.go", "state/txn_table.go"],
 [("removal and annotation", "sync3/caches/user.go AnnotateWithTransactionIDs"), ("storing", "sync2/handler2/handler.go Accumulate; state/txn_table.go"), ("waiting", "sync3/handler/txn_id_waiter.go Ingest, PublishUpToNID")],
 [("syncv3_txns", "transaction IDs by user, device and event", "state/txn_table.go"), ("queues", "events held back, by user and room", "sync3/handler/txn_id_waiter.go")],
 ["unsigned.transaction_id of timeline events in v3 responses"])
check("P14", "must-forward analysis of every timeline through removal and annotation; key-column rules on the table's SQL; path analysis of the waiter's queue")
prop("P16", "Sessions: positions, retries and reconnects are handled exactly once",
 "Requests on one connection are processed one at a time. A request is processed only when its position is one the connection handed out (the first request, a repeat of the last one, or a response that is still kept); any other position is answered with M_UNKNOWN_POS and changes nothing. A processed request gets the next position and its own txn_id, is remembered, and its response is kept until the client has gone beyond it; a failed request changes nothing. The answer is always the oldest response the client has not acknowledged; only an exact repeat is answered without being processed. A request with a position for which there is no connection is answered with M_UNKNOWN_POS and never starts a new session. A new session closes the one it replaces and is registered wherever connections are looked up; dead and expired connections are never used again and are closed; closing one connection never unregisters another, and closing the connections of a device or of users closes all of them.",
 ["inputs", "schedules", "histories"], "For every sequence of first requests, retries, lost responses, failures, expiries and replacements.",
 "Retries with other data, failures between two positions, and an expiry racing with a reconnect are histories tests do not produce.",
 ["sync3/conn.go", "sync3/connmap.go", "sync3/handler/handler.go", "internal/errors.go"],
 [("positions", "sync3/conn.go OnIncomingRequest"), ("registration", "sync3/connmap.go CreateConn, Conn, closeConn"), ("lookup", "sync3/handler/handler.go setupConnection")],
 [("lastPos", "the newest position handed out", "sync3/conn.go Conn"), ("serverResponses", "responses not yet acknowledged", "sync3/conn.go Conn"), ("lastClientRequest", "the last request processed", "sync3/conn.go Conn")],
 ["pos, txn_id and status of v3 responses"])
check("P16", "path analysis of the request bookkeeping with a taint on positions; guard analysis of lookups, purges and removals; lockset analysis")
prop("P17", "Encryption data is delivered at least once, forgotten only once acknowledged",
 "Every to-device message, device list change and one-time-key count or fallback key list which a poller receives for a device is stored for that user and device and announced to their connections. To-device messages are sent in the order they were received and again in every response until the client acknowledges them by giving a later position as since; they are deleted only when acknowledged that way (by the same user and device), or when they are key requests which were cancelled before being sent; the first request of a device after a start acknowledges nothing that was not handed out. next_batch is the position of the last message in the response and is recorded before the response is sent. Device list changes are marked as sent only by the statement which reads them for a response, are forgotten only by the next request that is not the first of a connection, and the first request of a connection gets the last sent ones again. The latest key counts and fallback key types are kept when read, and are sent in the first response and whenever they changed.",
 ["inputs", "histories", "crash points"], "For every sequence of polls, requests, retries, reconnections and restarts, and every set of devices.",
 "A lost to-device message or device list change makes messages undecryptable for ever and shows only in particular sequences (a retry, a crash between storing and sending, a second device, a restart), which tests sample sparsely.",
 ["state/to_device_table.go", "state/device_list_table.go", "state/device_data_table.go", "sync3/extensions/todevice.go", "sync3/extensions/e2ee.go", "sync2/handler2/handler.go", "sync2/poller.go", "sync2/device_data_ticker.go", "internal/device_data.go", "sync3/handler/handler.go"],
 [("storing", "sync2/poller.go parseToDeviceMessages, parseE2EEData; sync2/handler2/handler.go"), ("acknowledgement", "sync3/extensions/todevice.go"), ("cancelled key requests", "state/to_device_table.go InsertMessages"), ("device lists", "state/device_list_table.go SelectTx"), ("key data", "state/device_data_table.go Select, Upsert"), ("announcements", "sync2/device_data_ticker.go")],
 [("syncv3_to_device_messages", "messages by user, device and position", "state/to_device_table.go"), ("syncv3_device_list_updates", "changes by device and bucket", "state/device_list_table.go"), ("syncv3_device_data", "latest key counts", "state/device_data_table.go")],
 ["extensions.to_device and extensions.e2ee of v3 responses"])
check("P17", "must-forward analysis from receipt to storage and from storage to response, plus a rule on every SQL statement over the three tables (key columns, order, conditions of deletion) and on the conditions under which each is reached")

prop("P19", "Concurrent requests, pollers and background tasks never race or deadlock",
 "State shared between goroutines is only touched with the lock that guards it held (exclusively when it is changed), or atomically; a change computed from shared state, or made because of what was found in it, happens in the critical section in which that state was read, so that no concurrent update is lost or done twice; objects which caches hand to connections are not modified afterwards, nor are the live originals of cached room metadata handed out. Locks are released on every way out and are taken in an order in which no goroutine can wait for itself or for another in a circle.",
 ["schedules"], "For every interleaving of HTTP requests, live updates, pollers, timers and expiries.",
 "Races and lost updates need two goroutines at particular points; tests run mostly sequentially, and the race detector sees only the schedules that happen.",
 ["sync3/caches/*.go", "sync3/conn.go", "sync3/connmap.go", "sync3/dispatcher.go", "sync3/tracker.go", "sync3/handler/*.go", "sync2/poller.go", "sync2/txnid.go", "sync2/handler2/handler.go", "pubsub/pubsub.go"],
 [("one lock per field", "structs with a sync.Mutex or sync.RWMutex"), ("copies handed out", "sync3/caches/global.go copyRoom, internal/roomname.go DeepCopy"), ("read-modify-write in one critical section", "sync3/caches/user.go On*, sync2/poller.go EnsurePolling, sync3/connmap.go CreateConn")], None, ["every response", "process liveness"])
check("P19", "interprocedural lockset analysis, lock-order graph, critical-section and ownership analysis")
prop("P25", "Sticky requests, list filters and combined subscriptions give what was asked",
 "What a client asked for earlier stays in force until it changes it: a field which a later request leaves out keeps its value, for every list, room subscription and extension, and one which it gives replaces the earlier one. Every list and subscription that a request adds, changes or removes is carried out: a removed list or subscription ends, rooms of a new or changed one are sent, a change of filters makes the list anew with the new filters, and a change of the sort order sorts it. A list contains exactly the rooms which satisfy every filter given (and not rooms whose successor the user has joined, nor rooms the user has left) out of all the rooms the user is joined or invited to, when it is made and after every update. A room asked for in several ways gets the union of what they ask for, and combining never changes any of the combined subscriptions.",
 ["inputs", "histories"], "For every sequence of requests on a connection and every combination of lists, subscriptions and filters.",
 "There are dozens of fields and filters, and faults show only when a request leaves out one of them, combines two, or changes one at a time; tests sample a few combinations.",
 ["sync3/request.go", "sync3/lists.go", "sync3/extensions/extensions.go", "sync3/extensions/todevice.go", "sync3/handler/connstate.go", "sync3/handler/rooms_builder.go"],
 [("sticky merge", "sync3/request.go ApplyDelta"), ("filters", "sync3/request.go RequestFilters.Include"), ("union", "sync3/request.go RoomSubscription.Combine"), ("list upkeep", "sync3/lists.go SetRoom, AssignList"), ("carrying out", "sync3/handler/connstate.go onIncomingListRequest, buildRoomSubscriptions")],
 [("muxedReq", "the request as it stands", "sync3/handler/connstate.go ConnState"), ("roomSubscriptions", "the rooms subscribed to", "sync3/handler/connstate.go ConnState")],
 ["lists, rooms and extensions of v3 responses"])
check("P25", "conditional value-flow analysis (which field a value comes from, under which conditions) and path analysis of filters and list changes")
prop("P22", "Live updates reach every connection they concern",
 "Whatever a poller stores and announces (events, room state, receipts, typing, unread counts, invites, leaves, account data, to-device messages, device data, transaction IDs, completed first syncs) is passed on without loss: each kind of notification is handed to its handler; the handler passes it to the global cache and the cache of every user it concerns (everybody joined to the room who has connections, the user whose data it is, or the connections of the device), the global cache before the users; each user's cache passes it to all of their connections; each connection queues it until it is processed, or ends when its buffer is full; and processing passes it to every list, to the room subscriptions and to every enabled extension, adds a live event to the timeline of its room in the response, and puts what it changed about the room (unread counts, name, avatar, member counts, list positions, rooms that came into view) there too. Nothing is left out except for the reasons the protocol gives: no connection is there, the storage failed, it is a message (not a state event) of an ignored sender, the event was already part of what was sent, or the typing notification repeats the last one. An event which waits for its transaction ID is released when the ID is known or after a time, never kept for ever. A request which waits for a device's first sync is told its outcome, success or failure, and never waits for ever.",
 ["inputs", "histories", "schedules"], "For every notification, room membership, set of connections and way through the code that handles it.",
 "Each stage has loops, filters and early returns, and an update lost at any of them shows only as silence on some connections, in situations (a leave, a private receipt, a second device, a full buffer) which tests sample sparsely.",
 ["pubsub/pubsub.go", "pubsub/v2.go", "pubsub/v3.go", "sync3/dispatcher.go", "sync3/tracker.go", "sync3/connmap.go", "sync3/conn.go", "sync3/caches/user.go", "sync3/handler/handler.go", "sync3/handler/connstate.go", "sync3/handler/connstate_live.go", "sync3/handler/txn_id_waiter.go", "sync3/extensions/extensions.go"],
 [("notifications", "pubsub/v2.go onMessage"), ("live handler", "sync3/handler/handler.go SyncLiveHandler"), ("dispatch", "sync3/dispatcher.go notifyListeners"), ("user cache", "sync3/caches/user.go emitOnRoomUpdate"), ("connection buffer", "sync3/handler/connstate_live.go onUpdate, liveUpdate"), ("transaction ID wait", "sync3/handler/txn_id_waiter.go")],
 [("userToReceiver", "user caches by user", "sync3/dispatcher.go"), ("listeners", "connections by ID", "sync3/caches/user.go UserCache"), ("updates", "buffered updates of a connection", "sync3/handler/connstate_live.go")],
 ["lists, rooms and extensions of v3 responses"])
check("P22", "interprocedural must-forward analysis: every path of each stage passes on each item it was given, or a permitted reason is known on that path")
