From 127cad4fc08a6e84fe185dc639ec00e898b09e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:42 +0000
Subject: [PATCH 01/35] fix: do not treat account data as a duplicate until it
 has been stored

---
 sync2/handler2/handler.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 7b6ecf5..6829d7f 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -488,19 +488,22 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 	// duplicate suppression for multiple devices on the same account.
 	// We suppress by remembering the last bytes for a given account data, and if they match we ignore.
 	dedupedEvents := make([]json.RawMessage, 0, len(events))
+	newHashes := make(map[string]uint64, len(events)) // remembered only once the data has been stored
 	for i := range events {
 		evType := gjson.GetBytes(events[i], "type").Str
 		key := fmt.Sprintf("%s|%s|%s", userID, roomID, evType)
 		thisHash := fnvHash(events[i])
-		last, _ := h.accountDataMap.Load(key)
-		if last != nil {
-			lastHash := last.(uint64)
-			if lastHash == thisHash {
-				continue // skip this event
+		lastHash, seen := newHashes[key]
+		if !seen {
+			if last, _ := h.accountDataMap.Load(key); last != nil {
+				lastHash, seen = last.(uint64), true
 			}
 		}
+		if seen && lastHash == thisHash {
+			continue // skip this event
+		}
 		dedupedEvents = append(dedupedEvents, events[i])
-		h.accountDataMap.Store(key, thisHash)
+		newHashes[key] = thisHash
 	}
 	if len(dedupedEvents) == 0 {
 		return nil
@@ -512,6 +515,10 @@ func (h *Handler) OnAccountData(ctx context.Context, userID, roomID string, even
 		sentry.CaptureException(err)
 		return err
 	}
+	// only suppress duplicates of data we have actually stored, else a retry of a failed insert would be dropped.
+	for key, hash := range newHashes {
+		h.accountDataMap.Store(key, hash)
+	}
 	var types []string
 	for _, d := range data {
 		types = append(types, d.Type)
-- 
2.43.0


From 707dd1783f50a0d2185187643225e450ed0629b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:03 +0000
Subject: [PATCH 02/35] fix: do not share one err variable between the poller
 startup workers

---
 sync2/handler2/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 6829d7f..6e4fda1 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -154,7 +154,7 @@ func (h *Handler) StartV2Pollers() {
 					UserID:   t.UserID,
 					DeviceID: t.DeviceID,
 				}
-				_, err = h.pMap.EnsurePolling(
+				_, err := h.pMap.EnsurePolling(
 					pid, t.AccessToken, t.Since, true,
 					logger.With().Str("user_id", t.UserID).Str("device_id", t.DeviceID).Logger(),
 				)
-- 
2.43.0


From c19aaad62127ef4bf8dc96b914d1c33c24b117f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:05 +0000
Subject: [PATCH 03/35] fix: answer EnsurePolling requests whose token cannot
 be loaded

---
 sync2/handler2/handler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 6e4fda1..20c6bd0 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -578,6 +578,12 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 	if err != nil {
 		log.Err(err).Msg("V3Sub: EnsurePolling unknown device")
 		sentry.CaptureException(err)
+		// tell whoever is waiting that there won't be a poller, else they wait forever
+		h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2InitialSyncComplete{
+			UserID:   p.UserID,
+			DeviceID: p.DeviceID,
+			Success:  false,
+		})
 		return
 	}
 	// don't block us from consuming more pubsub messages just because someone wants to sync
@@ -587,7 +593,7 @@ func (h *Handler) EnsurePolling(p *pubsub.V3EnsurePolling) {
 			UserID:   p.UserID,
 			DeviceID: p.DeviceID,
 		}
-		_, err = h.pMap.EnsurePolling(
+		_, err := h.pMap.EnsurePolling(
 			pid, accessToken, since, false, log,
 		)
 		if err != nil {
-- 
2.43.0


From 4034e1903bc6ffc3a2ce9f055e81238d58171ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:06 +0000
Subject: [PATCH 04/35] fix: do not announce or deduplicate unread counts which
 were not stored

---
 sync2/handler2/handler.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sync2/handler2/handler.go b/sync2/handler2/handler.go
index 20c6bd0..839a9d5 100644
--- a/sync2/handler2/handler.go
+++ b/sync2/handler2/handler.go
@@ -463,6 +463,14 @@ func (h *Handler) UpdateUnreadCounts(ctx context.Context, roomID, userID string,
 	if ok && entry.Highlight == hc && entry.Notif == nc {
 		return // dupe
 	}
+
+	err := h.Store.UnreadTable.UpdateUnreadCounters(userID, roomID, highlightCount, notifCount)
+	if err != nil {
+		logger.Err(err).Str("user", userID).Str("room", roomID).Msg("failed to update unread counters")
+		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
+		return
+	}
+	// only suppress duplicates of counts we have actually stored
 	h.unreadMap[key] = struct {
 		Highlight int
 		Notif     int
@@ -470,12 +478,6 @@ func (h *Handler) UpdateUnreadCounts(ctx context.Context, roomID, userID string,
 		Highlight: hc,
 		Notif:     nc,
 	}
-
-	err := h.Store.UnreadTable.UpdateUnreadCounters(userID, roomID, highlightCount, notifCount)
-	if err != nil {
-		logger.Err(err).Str("user", userID).Str("room", roomID).Msg("failed to update unread counters")
-		internal.GetSentryHubFromContextOrDefault(ctx).CaptureException(err)
-	}
 	h.v2Pub.Notify(pubsub.ChanV2, &pubsub.V2UnreadCounts{
 		RoomID:            roomID,
 		UserID:            userID,
-- 
2.43.0


From 933c843cb2d403300d33b1b38282fc93f48e286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:09 +0000
Subject: [PATCH 05/35] fix: store new transaction IDs even when some are
 already known

---
 state/txn_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/state/txn_table.go b/state/txn_table.go
index 8120c19..12b54b2 100644
--- a/state/txn_table.go
+++ b/state/txn_table.go
@@ -48,7 +48,8 @@ func (t *TransactionsTable) Insert(userID, deviceID string, eventIDToTxnID map[s
 	}
 	result, err := t.db.NamedQuery(`
 		INSERT INTO syncv3_txns (user_id, device_id, event_id, txn_id, ts)
-        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)`, rows)
+        VALUES (:user_id, :device_id, :event_id, :txn_id, :ts)
+        ON CONFLICT (user_id, device_id, event_id) DO NOTHING`, rows)
 	if err == nil {
 		result.Close()
 	}
-- 
2.43.0


From e22b15229b49e9ba85d28b4125a1d866da098da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:26 +0000
Subject: [PATCH 06/35] fix: do not report a failed event query as malformed
 data

---
 state/event_table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state/event_table.go b/state/event_table.go
index 33c5c6c..8c668b4 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -205,9 +205,13 @@ func (t *EventTable) selectAny(txn *sqlx.Tx, numWanted int, queryStr string, pqA
 	} else {
 		err = t.db.Select(&events, queryStr, pqArray)
 	}
+	if err != nil {
+		// a failed query is not a data error: it must stay retriable
+		return nil, err
+	}
 	if numWanted > 0 {
 		if numWanted != len(events) {
-			return nil, internal.NewDataError("events table query %s got %d events wanted %d. err=%s", queryStr, len(events), numWanted, err)
+			return nil, internal.NewDataError("events table query %s got %d events wanted %d", queryStr, len(events), numWanted)
 		}
 	}
 	return
-- 
2.43.0


From 2779bdf6ab4925f6195f52ee693430bb76092255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:00 +0000
Subject: [PATCH 07/35] fix: reload space children when room metadata is reset

---
 state/storage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/state/storage.go b/state/storage.go
index 0d0faa7..63f9bd7 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -324,6 +324,7 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 	)
 	WHERE (event_type IN ('m.room.name', 'm.room.avatar', 'm.room.canonical_alias', 'm.room.encryption') AND state_key = '')
 	   OR (event_type = 'm.room.member' AND membership IN ('join', '_join', 'invite', '_invite'))
+	   OR event_type = 'm.space.child'
 	ORDER BY event_nid ASC
 	;`, metadata.RoomID)
 	if err != nil {
@@ -358,7 +359,10 @@ func (s *Storage) ResetMetadataState(metadata *internal.RoomMetadata) error {
 				metadata.InviteCount++
 			}
 		case "m.space.child":
-			metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			// children are removed by sending an event without a via list
+			if gjson.GetBytes(ev.JSON, "content.via").IsArray() {
+				metadata.ChildSpaceRooms[ev.StateKey] = struct{}{}
+			}
 		}
 	}
 
-- 
2.43.0


From a4c4d7168b1525d53820d7c5eebeadb03d0e1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:02 +0000
Subject: [PATCH 08/35] fix: report result sets which end early because of an
 error

---
 state/event_table.go                                      | 5 ++++-
 state/invites_table.go                                    | 2 +-
 state/migrations/20230814183302_cbor_device_data.go       | 3 +++
 state/migrations/20230822180807_bogus_snapshot_cleanup.go | 2 +-
 state/migrations/20231108122539_clear_stuck_invites.go    | 3 +++
 state/receipt_table.go                                    | 3 +++
 state/rooms_table.go                                      | 2 +-
 state/snapshot_table.go                                   | 2 +-
 state/storage.go                                          | 8 +++++++-
 state/to_device_table.go                                  | 3 +++
 state/unread_table.go                                     | 2 +-
 11 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index 8c668b4..76585cf 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -193,6 +193,9 @@ func (t *EventTable) Insert(txn *sqlx.Tx, events []Event, checkFields bool) (map
 			}
 			result[eventID] = eventNID
 		}
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 	}
 	return result, nil
 }
@@ -480,7 +483,7 @@ SELECT room_id, event_nid, event FROM syncv3_events, max_by_ev_type WHERE event_
 		}
 		result = append(result, ev)
 	}
-	return result, nil
+	return result, rows.Err()
 }
 
 // Select all events between the bounds matching the type, state_key given.
diff --git a/state/invites_table.go b/state/invites_table.go
index 415999b..1d31d9c 100644
--- a/state/invites_table.go
+++ b/state/invites_table.go
@@ -136,5 +136,5 @@ func (t *InvitesTable) SelectAllInvitesForUser(userID string) (map[string][]json
 		}
 		result[roomID] = inviteState
 	}
-	return result, nil
+	return result, rows.Err()
 }
diff --git a/state/migrations/20230814183302_cbor_device_data.go b/state/migrations/20230814183302_cbor_device_data.go
index b549d93..09e8c0b 100644
--- a/state/migrations/20230814183302_cbor_device_data.go
+++ b/state/migrations/20230814183302_cbor_device_data.go
@@ -112,6 +112,9 @@ func downCborDeviceData(ctx context.Context, tx *sql.Tx) error {
 		}
 		deviceDatas[deviceData] = data
 	}
+	if rows.Err() != nil {
+		return rows.Err()
+	}
 
 	for dd, cborBytes := range deviceDatas {
 		var data OldDeviceData
diff --git a/state/migrations/20230822180807_bogus_snapshot_cleanup.go b/state/migrations/20230822180807_bogus_snapshot_cleanup.go
index a42e950..9d85e73 100644
--- a/state/migrations/20230822180807_bogus_snapshot_cleanup.go
+++ b/state/migrations/20230822180807_bogus_snapshot_cleanup.go
@@ -84,7 +84,7 @@ func getBogusRooms(ctx context.Context, tx *sql.Tx) ([]string, error) {
 		bogusRooms = append(bogusRooms, roomID)
 	}
 
-	return bogusRooms, nil
+	return bogusRooms, rows.Err()
 }
 
 func downBogusSnapshotCleanup(ctx context.Context, tx *sql.Tx) error {
diff --git a/state/migrations/20231108122539_clear_stuck_invites.go b/state/migrations/20231108122539_clear_stuck_invites.go
index acd4afc..634afe0 100644
--- a/state/migrations/20231108122539_clear_stuck_invites.go
+++ b/state/migrations/20231108122539_clear_stuck_invites.go
@@ -49,6 +49,9 @@ func upClearStuckInvites(ctx context.Context, tx *sql.Tx) error {
 		}
 		usersToInvalidate = append(usersToInvalidate, userID)
 	}
+	if err = rows.Err(); err != nil {
+		return fmt.Errorf("failed to read users: %w", err)
+	}
 	logger.Info().Int("len_invalidate_users", len(usersToInvalidate)).Msg("invalidating users")
 	if len(usersToInvalidate) < 50 {
 		logger.Info().Strs("invalidate_users", usersToInvalidate).Msg("invalidating users")
diff --git a/state/receipt_table.go b/state/receipt_table.go
index ccb4809..7f60677 100644
--- a/state/receipt_table.go
+++ b/state/receipt_table.go
@@ -158,6 +158,9 @@ func (t *ReceiptTable) bulkInsert(tableName string, txn *sqlx.Tx, receipts []int
 			})
 		}
 		rows.Close()
+		if err := rows.Err(); err != nil {
+			return nil, err
+		}
 	}
 	return
 }
diff --git a/state/rooms_table.go b/state/rooms_table.go
index e87f692..10e1d6b 100644
--- a/state/rooms_table.go
+++ b/state/rooms_table.go
@@ -105,7 +105,7 @@ func (t *RoomsTable) LatestNIDs(txn *sqlx.Tx, roomIDs []string) (nids map[string
 		}
 		nids[roomID] = latestNID
 	}
-	return
+	return nids, rows.Err()
 }
 
 // Return the snapshot for this room AFTER the latest event has been applied.
diff --git a/state/snapshot_table.go b/state/snapshot_table.go
index b2e75ad..2290397 100644
--- a/state/snapshot_table.go
+++ b/state/snapshot_table.go
@@ -53,7 +53,7 @@ func (t *SnapshotTable) CurrentSnapshots(txn *sqlx.Tx) (map[string][]int64, erro
 		}
 		result[roomID] = append(eventNIDs, memberEventNIDs...)
 	}
-	return result, nil
+	return result, rows.Err()
 }
 
 // Select a row based on its snapshot ID.
diff --git a/state/storage.go b/state/storage.go
index 63f9bd7..fe2fd1d 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -462,7 +462,7 @@ func (s *Storage) currentNotMembershipStateEventsInAllRooms(txn *sqlx.Tx, eventT
 		}
 		result[ev.RoomID] = append(result[ev.RoomID], ev)
 	}
-	return result, nil
+	return result, rows.Err()
 }
 
 func (s *Storage) Accumulate(userID, roomID string, timeline sync2.TimelineResponse) (result AccumulateResult, err error) {
@@ -683,6 +683,9 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 				}
 				roomToEvents[ev.RoomID] = append(roomToEvents[ev.RoomID], ev)
 			}
+			if err := rows.Err(); err != nil {
+				return err
+			}
 			// handle the most recent events which won't be in the snapshot but may need to be.
 			// we handle the replace case but don't handle brand new state events
 			for i := range latestEvents {
@@ -1041,6 +1044,9 @@ func (s *Storage) AllJoinedMembers(txn *sqlx.Tx, tempTableName string) (joinedMe
 			heroes.append(nid)
 		}
 	}
+	if err := rows.Err(); err != nil {
+		return nil, nil, err
+	}
 
 	// now select the membership events for the heroes
 	var allHeroNIDs []int64
diff --git a/state/to_device_table.go b/state/to_device_table.go
index 8035dd7..a5441d6 100644
--- a/state/to_device_table.go
+++ b/state/to_device_table.go
@@ -215,6 +215,9 @@ func (t *ToDeviceTable) InsertMessages(userID, deviceID string, msgs []json.RawM
 				}
 			}
 			result.Close()
+			if err = result.Err(); err != nil {
+				return err
+			}
 		}
 		return nil
 	})
diff --git a/state/unread_table.go b/state/unread_table.go
index 8dcd2d1..cea849d 100644
--- a/state/unread_table.go
+++ b/state/unread_table.go
@@ -41,7 +41,7 @@ func (t *UnreadTable) SelectAllNonZeroCountsForUser(userID string, callback func
 		}
 		callback(roomID, highlightCount, notifCount)
 	}
-	return nil
+	return rows.Err()
 }
 
 func (t *UnreadTable) SelectUnreadCounters(userID, roomID string) (highlightCount, notificationCount int, err error) {
-- 
2.43.0


From a30b9ac6c65ea3a19804686377a89a43f2961323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:56 +0000
Subject: [PATCH 09/35] fix: do not let a redaction redact events in other
 rooms

---
 state/event_table.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state/event_table.go b/state/event_table.go
index 76585cf..e0c2e7f 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -405,6 +405,11 @@ func (t *EventTable) Redact(txn *sqlx.Tx, roomVer string, redacteeEventIDToRedac
 		)
 	}
 	for i := range eventsToRedact {
+		// a redaction only applies to events in its own room
+		redactRoomID := redacteeEventIDToRedactEvent[eventsToRedact[i].ID].RoomID
+		if redactRoomID != "" && redactRoomID != eventsToRedact[i].RoomID {
+			continue
+		}
 		eventsToRedact[i].JSON, err = rv.RedactEventJSON(eventsToRedact[i].JSON)
 		if err != nil {
 			return fmt.Errorf("RedactEventJSON[%s]: %w", eventsToRedact[i].ID, err)
-- 
2.43.0


From 4d64c20e8f42b0c79c7a50041a4017bd3a746810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:47 +0000
Subject: [PATCH 10/35] fix: do not send transaction IDs to clients which did
 not send the event

---
 sync3/caches/user.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index fa21cfa..b4060e5 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -452,6 +452,13 @@ func (c *UserCache) AnnotateWithTransactionIDs(ctx context.Context, userID strin
 			ev := gjson.ParseBytes(evJSON)
 			evID := ev.Get("event_id").Str
 			sender := ev.Get("sender").Str
+			if ev.Get("unsigned.transaction_id").Exists() {
+				// The event was stored from the sending device's poller. The ID is only meant for that device,
+				// which will get it back below.
+				if stripped, err := sjson.DeleteBytes(evJSON, "unsigned.transaction_id"); err == nil {
+					events[i] = stripped
+				}
+			}
 			if sender != userID {
 				// don't ask for txn IDs for events which weren't sent by us.
 				// If we do, we'll needlessly hit the database, increasing latencies when
-- 
2.43.0


From 35f7929cfea2c7aae57e60d607aca09094c2ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:31 +0000
Subject: [PATCH 11/35] fix: do not add rooms the user has left to new lists

---
 sync3/lists.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sync3/lists.go b/sync3/lists.go
index 823637b..5729a77 100644
--- a/sync3/lists.go
+++ b/sync3/lists.go
@@ -233,11 +233,12 @@ func (s *InternalRequestLists) AssignList(ctx context.Context, listKey string, f
 			return s.lists[listKey], false
 		}
 	}
-	roomIDs := make([]string, len(s.allRooms))
-	i := 0
-	for roomID := range s.allRooms {
-		roomIDs[i] = roomID
-		i++
+	roomIDs := make([]string, 0, len(s.allRooms))
+	for roomID, room := range s.allRooms {
+		if room.HasLeft {
+			continue // SetRoom removes left rooms from lists, so do not add them to new lists either.
+		}
+		roomIDs = append(roomIDs, roomID)
 	}
 
 	roomList := NewFilteredSortableRooms(s, listKey, roomIDs, filters)
-- 
2.43.0


From be10da26ac5305107eee340b27538494261e2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:33 +0000
Subject: [PATCH 12/35] fix: do not load room data for users who are no longer
 joined to the room

---
 sync3/handler/connstate.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index c71a86d..2184e05 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -556,6 +556,17 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 	ctx, span := internal.StartSpan(ctx, "getInitialRoomData")
 	defer span.End()
 
+	userRoomDatas := s.userCache.LoadRooms(roomIDs...)
+	// The lists may still contain rooms which the user has been removed from, if the connection hasn't processed that
+	// update yet. Do not load data for these rooms as it would be the CURRENT data, which the user must not see.
+	visibleRoomIDs := make([]string, 0, len(roomIDs))
+	for _, roomID := range roomIDs {
+		if userRoomDatas[roomID].IsInvite || s.joinChecker.IsUserJoined(s.userID, roomID) {
+			visibleRoomIDs = append(visibleRoomIDs, roomID)
+		}
+	}
+	roomIDs = visibleRoomIDs
+
 	// 0. Load room metadata and timelines.
 	// We want to grab the user room data and the room metadata for each room ID. We use the globally
 	// highest NID we've seen to act as an anchor for the request. This anchor does not guarantee that
@@ -564,7 +575,6 @@ func (s *ConnState) getInitialRoomData(ctx context.Context, roomSub sync3.RoomSu
 	// has seen 6, as concurrent room updates cause A and B to race. This is why we then go through the
 	// response to this call to assign new load positions for each room.
 	roomMetadatas := s.globalCache.LoadRooms(ctx, roomIDs...)
-	userRoomDatas := s.userCache.LoadRooms(roomIDs...)
 	timelines := s.userCache.LazyLoadTimelines(ctx, s.anchorLoadPosition, roomIDs, int(roomSub.TimelineLimit))
 
 	// 1. Prepare lazy loading data structures, txn IDs.
-- 
2.43.0


From c2697cfb94cba77d3c2e1e626f339cc0abe48422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:50 +0000
Subject: [PATCH 13/35] fix: return rooms which the user left and rejoined to
 their lists

---
 sync3/caches/user.go       | 4 ++++
 sync3/handler/connstate.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index b4060e5..4822b2b 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -607,6 +607,10 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 			urd.HighlightCount = 0
 		}
 	}
+	// likewise reset the HasLeft field when the user comes back to a room they left
+	if urd.HasLeft && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
+		urd.HasLeft = eventData.Content.Get("membership").Str != "join"
+	}
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
 		// the children for a space we are a part of have changed. Find the room that was affected and update our cache value.
 		childRoomID := *eventData.StateKey
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 2184e05..269f77e 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -122,6 +122,7 @@ func (s *ConnState) load(ctx context.Context, req *sync3.Request) error {
 		timing, ok := joinTimings[metadata.RoomID]
 		internal.AssertWithContext(ctx, "LoadJoinedRooms returned room with timing info", ok)
 		urd.JoinTiming = timing
+		urd.HasLeft = false // the user may have left and come back
 
 		interestedEventTimestampsByList := make(map[string]uint64, len(req.Lists))
 		for listKey, listReq := range req.Lists {
-- 
2.43.0


From 5259259120227b9d2d26cd09bc31f9657b08b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:22 +0000
Subject: [PATCH 14/35] fix: do not send typing notifications in rooms the user
 is only invited to

---
 sync3/extensions/extensions.go |  3 +++
 sync3/extensions/typing.go     |  3 +++
 sync3/handler/connstate.go     |  1 +
 sync3/response.go              | 11 +++++++++++
 4 files changed, 18 insertions(+)

diff --git a/sync3/extensions/extensions.go b/sync3/extensions/extensions.go
index 4eebd4c..c3e31b1 100644
--- a/sync3/extensions/extensions.go
+++ b/sync3/extensions/extensions.go
@@ -287,6 +287,9 @@ type Context struct {
 	// oldest to newest, as determined by the core sliding sync protocol.
 	// TODO: can the timelines be "gappy" like a v2 sync timeline?
 	RoomIDToTimeline map[string][]string
+	// InvitedRooms is the subset of the rooms in RoomIDToTimeline which the user is only
+	// invited to, so must not see the ephemeral events of.
+	InvitedRooms map[string]struct{}
 	// IsInitial is true if this sync is requesting a snapshot of current client state
 	// (pos = 0, "initial sync") and false otherwise (pos > 0, "incremental sync").
 	IsInitial bool
diff --git a/sync3/extensions/typing.go b/sync3/extensions/typing.go
index 286f277..4da107c 100644
--- a/sync3/extensions/typing.go
+++ b/sync3/extensions/typing.go
@@ -74,6 +74,9 @@ func (r *TypingRequest) ProcessInitial(ctx context.Context, res *Response, extCt
 	}
 	roomToGlobalMetadata := extCtx.GlobalCache.LoadRooms(ctx, roomIDs...)
 	for roomID := range extCtx.RoomIDToTimeline {
+		if _, invited := extCtx.InvitedRooms[roomID]; invited {
+			continue
+		}
 		meta := roomToGlobalMetadata[roomID]
 		if meta == nil || meta.TypingEvent == nil {
 			continue
diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 269f77e..e75c3f3 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -231,6 +231,7 @@ func (s *ConnState) onIncomingRequest(reqCtx context.Context, req *sync3.Request
 		UserID:             s.userID,
 		DeviceID:           s.deviceID,
 		RoomIDToTimeline:   response.RoomIDsToTimelineEventIDs(),
+		InvitedRooms:       response.InvitedRoomIDs(),
 		IsInitial:          isInitial,
 		RoomIDsToLists:     s.lists.ListsByVisibleRoomIDs(s.muxedReq.Lists),
 		AllSubscribedRooms: internal.Keys(s.roomSubscriptions),
diff --git a/sync3/response.go b/sync3/response.go
index 8cf8a1d..0ebb977 100644
--- a/sync3/response.go
+++ b/sync3/response.go
@@ -57,6 +57,17 @@ func (r *Response) RoomIDsToTimelineEventIDs() map[string][]string {
 	return includedRoomIDs
 }
 
+// InvitedRoomIDs returns the set of rooms in this response which the user is only invited to.
+func (r *Response) InvitedRoomIDs() map[string]struct{} {
+	invitedRoomIDs := make(map[string]struct{})
+	for roomID, room := range r.Rooms {
+		if room.InviteState != nil {
+			invitedRoomIDs[roomID] = struct{}{}
+		}
+	}
+	return invitedRoomIDs
+}
+
 // Custom unmarshal so we can dynamically create the right ResponseOp for Ops
 func (r *Response) UnmarshalJSON(b []byte) error {
 	temporary := struct {
-- 
2.43.0


From 938d225034da449322f30300ea046161980ad528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:09 +0000
Subject: [PATCH 15/35] fix: do not send global account data as that of a room
 when rooms are out of scope

---
 sync3/extensions/account_data.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sync3/extensions/account_data.go b/sync3/extensions/account_data.go
index a84d7f2..9d9bfd9 100644
--- a/sync3/extensions/account_data.go
+++ b/sync3/extensions/account_data.go
@@ -92,12 +92,10 @@ func (r *AccountDataRequest) AppendLive(ctx context.Context, res *Response, extC
 }
 
 func (r *AccountDataRequest) ProcessInitial(ctx context.Context, res *Response, extCtx Context) {
-	roomIDs := make([]string, len(extCtx.RoomIDToTimeline))
-	i := 0
+	roomIDs := make([]string, 0, len(extCtx.RoomIDToTimeline))
 	for roomID := range extCtx.RoomIDToTimeline {
 		if r.RoomInScope(roomID, extCtx) {
-			roomIDs[i] = roomID
-			i++
+			roomIDs = append(roomIDs, roomID)
 		}
 	}
 	extRes := &AccountDataResponse{
-- 
2.43.0


From fdd54fbc30419a570a25b7590152ed6555e83743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:16 +0000
Subject: [PATCH 16/35] fix: retire invites when the invited user is banned

---
 sync2/poller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync2/poller.go b/sync2/poller.go
index e3e4839..ed35409 100644
--- a/sync2/poller.go
+++ b/sync2/poller.go
@@ -900,7 +900,8 @@ func (p *poller) parseRoomsResponse(ctx context.Context, res *SyncResponse) erro
 		var leaveEvent json.RawMessage
 		for _, ev := range roomData.Timeline.Events {
 			leaveEv := gjson.ParseBytes(ev)
-			if leaveEv.Get("content.membership").Str == "leave" && leaveEv.Get("state_key").Str == p.userID {
+			membership := leaveEv.Get("content.membership").Str
+			if (membership == "leave" || membership == "ban") && leaveEv.Get("state_key").Str == p.userID {
 				leaveEvent = ev
 				break
 			}
-- 
2.43.0


From 388ff734c33bcee73f0a5282270b0985a69ca474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:40 +0000
Subject: [PATCH 17/35] fix: select the closest prev_batch token, not an
 arbitrary one

The query for the closest prev_batch at or after an event had LIMIT 1 but no ORDER BY, so which token came back
depended on the query plan and on the physical order of the rows.
---
 state/event_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/event_table.go b/state/event_table.go
index e0c2e7f..01fa994 100644
--- a/state/event_table.go
+++ b/state/event_table.go
@@ -537,7 +537,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 	err = t.db.QueryRow(
 		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= (
 			SELECT event_nid FROM syncv3_events WHERE event_id = $2
-		) LIMIT 1`, roomID, eventID,
+		) ORDER BY event_nid ASC LIMIT 1`, roomID, eventID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
@@ -549,7 +549,7 @@ func (t *EventTable) SelectClosestPrevBatchByID(roomID string, eventID string) (
 // is no closest.
 func (t *EventTable) SelectClosestPrevBatch(txn *sqlx.Tx, roomID string, eventNID int64) (prevBatch string, err error) {
 	err = txn.QueryRow(
-		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 LIMIT 1`, roomID, eventNID,
+		`SELECT prev_batch FROM syncv3_events WHERE prev_batch IS NOT NULL AND room_id=$1 AND event_nid >= $2 ORDER BY event_nid ASC LIMIT 1`, roomID, eventNID,
 	).Scan(&prevBatch)
 	if err == sql.ErrNoRows {
 		err = nil
-- 
2.43.0


From dde5b0aeb496600fb1d896744ffa9368185b3ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:42 +0000
Subject: [PATCH 18/35] fix: keep the prev_batch token when the first timeline
 event is malformed

The token was only attached to the event at index 0, so it was lost when that event was skipped, and clients had no
way to paginate back past the rest of that timeline.
---
 state/accumulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/accumulator.go b/state/accumulator.go
index 678ef4e..8622939 100644
--- a/state/accumulator.go
+++ b/state/accumulator.go
@@ -570,7 +570,7 @@ func (a *Accumulator) Accumulate(txn *sqlx.Tx, userID, roomID string, timeline s
 func parseAndDeduplicateTimelineEvents(roomID string, timeline sync2.TimelineResponse) []Event {
 	dedupedEvents := make([]Event, 0, len(timeline.Events))
 	seenEvents := make(map[string]struct{})
-	for i, rawEvent := range timeline.Events {
+	for _, rawEvent := range timeline.Events {
 		e := Event{
 			JSON:   rawEvent,
 			RoomID: roomID,
@@ -587,7 +587,7 @@ func parseAndDeduplicateTimelineEvents(roomID string, timeline sync2.TimelineRes
 			)
 			continue
 		}
-		if i == 0 && timeline.PrevBatch != "" {
+		if len(dedupedEvents) == 0 && timeline.PrevBatch != "" {
 			// tag the first timeline event with the prev batch token
 			e.PrevBatch = sql.NullString{
 				String: timeline.PrevBatch,
-- 
2.43.0


From 857a68c9cb374a50a35012dd942b875d9ac495a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:44 +0000
Subject: [PATCH 19/35] fix: do not move the load position of a room backwards

When an event brings a room into the window, the room's initial timeline may already include later events whose
announcements are still queued. Resetting the load position to the older event made the connection send those later
events a second time.
---
 sync3/handler/connstate_live.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 70da78d..a85a806 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -227,8 +227,9 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				if roomEventUpdate.EventData.NID <= s.loadPositions[roomEventUpdate.RoomID()] {
 					// this update has been accounted for by the initial:true room snapshot
 					advancedPastEvent = true
+				} else {
+					s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 				}
-				s.loadPositions[roomEventUpdate.RoomID()] = roomEventUpdate.EventData.NID
 			}
 			// we only append to the timeline if we haven't already got this event. This can happen when:
 			// - 2 live events for a room mid-connection
-- 
2.43.0


From 10c079557dcc1dcea274d0d834e64ea4543105d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:23 +0000
Subject: [PATCH 20/35] fix: do not unregister a connection's replacement when
 the connection expires

The expiry callback of a connection runs on its own goroutine, so it can run after the client has already made a new
connection with the same ID. It then removed the new connection from the registry, which left it running but out of
reach: it was not closed when the access token expired and missed transaction ID notifications.
---
 sync3/connmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sync3/connmap.go b/sync3/connmap.go
index 287770f..826c2ea 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -229,11 +229,13 @@ func (m *ConnMap) closeConn(conn *Conn) {
 	connKey := conn.ConnID.String()
 	logger.Trace().Str("conn", connKey).Msg("closing connection")
 	// remove conn from all the maps
-	delete(m.connIDToConn, connKey)
+	if m.connIDToConn[connKey] == conn { // may have been replaced already
+		delete(m.connIDToConn, connKey)
+	}
 	h := conn.handler
 	conns := m.userIDToConn[conn.UserID]
 	for i := 0; i < len(conns); i++ {
-		if conns[i].DeviceID == conn.DeviceID && conns[i].CID == conn.CID {
+		if conns[i] == conn {
 			// delete without preserving order
 			conns[i] = nil // allow GC
 			conns = slices.Delete(conns, i, i+1)
-- 
2.43.0


From 7f37c52f063aac2d2250ade63dda28a9cf2e48b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 21/35] fix: do not overwrite one combined subscription's
 required_state with another's

Combining A+B and then A+C appended both B's and C's required_state to the spare capacity of the same slice, so rooms
in A+B were sent the state asked for in C instead of that in B.
---
 sync3/request.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync3/request.go b/sync3/request.go
index 618e970..b251013 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -612,7 +612,8 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 		result.TimelineLimit = other.TimelineLimit
 	}
 	// combine together required_state fields, we'll union them later
-	result.RequiredState = append(rs.RequiredState, other.RequiredState...)
+	// NB: into a new slice, as the subscriptions being combined may be combined with others as well.
+	result.RequiredState = append(append([][2]string(nil), rs.RequiredState...), other.RequiredState...)
 
 	if checkOldRooms {
 		// set include_old_rooms if it is unset
-- 
2.43.0


From 7fd8fd14d89252575a0d3c4b6c48519f3b3f8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:36 +0000
Subject: [PATCH 22/35] fix: keep include_old_rooms and include_heroes when
 combining subscriptions

A room in two lists (or in a list and a room subscription) lost its heroes, and lost its old rooms depending on the
order in which the subscriptions were combined.
---
 sync3/request.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sync3/request.go b/sync3/request.go
index b251013..378b800 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -611,6 +611,11 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 	} else {
 		result.TimelineLimit = other.TimelineLimit
 	}
+	if rs.IncludeHeroes() {
+		result.Heroes = rs.Heroes
+	} else {
+		result.Heroes = other.Heroes
+	}
 	// combine together required_state fields, we'll union them later
 	// NB: into a new slice, as the subscriptions being combined may be combined with others as well.
 	result.RequiredState = append(append([][2]string(nil), rs.RequiredState...), other.RequiredState...)
@@ -623,6 +628,8 @@ func (rs RoomSubscription) combineRecursive(other RoomSubscription, checkOldRoom
 			// 2 subs have include_old_rooms set, union them. Don't check them for old rooms though as that's silly
 			ior := rs.IncludeOldRooms.combineRecursive(*other.IncludeOldRooms, false)
 			result.IncludeOldRooms = &ior
+		} else {
+			result.IncludeOldRooms = rs.IncludeOldRooms
 		}
 	}
 	return result
-- 
2.43.0


From c107090a8299b2dac55bdd985e9df6bddb30d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:38 +0000
Subject: [PATCH 23/35] fix: apply the spaces filter even when filtering by
 room type

A list which filters on both room_types and spaces ignored the spaces.
---
 sync3/request.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync3/request.go b/sync3/request.go
index 378b800..b24921f 100644
--- a/sync3/request.go
+++ b/sync3/request.go
@@ -549,9 +549,8 @@ func (rf *RequestFilters) Include(r *RoomConnMetadata, finder RoomFinder) bool {
 	if nullableStringExists(rf.NotRoomTypes, r.RoomType) {
 		return false // explicitly excluded
 	}
-	if len(rf.RoomTypes) > 0 {
-		// either explicitly included or implicitly excluded
-		return nullableStringExists(rf.RoomTypes, r.RoomType)
+	if len(rf.RoomTypes) > 0 && !nullableStringExists(rf.RoomTypes, r.RoomType) {
+		return false // implicitly excluded
 	}
 	if len(rf.Spaces) > 0 {
 		// ensure this room is a member of one of these spaces
-- 
2.43.0


From 47d587922f6d9a0df5e79c657e55f43db117d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:39 +0000
Subject: [PATCH 24/35] fix: do not loop for ever when including old rooms

If the user had joined the predecessor of a room but the connection had not processed that join yet, the chain of old
rooms never advanced. Rooms can also name each other as predecessors.
---
 sync3/handler/connstate.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index e75c3f3..428c5c2 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -488,7 +488,9 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 				if currRoom != nil {
 					prevRoomID = currRoom.PredecessorRoomID
 				}
-				for prevRoomID != nil { // <- the chain of old rooms
+				seen := map[string]bool{currRoomID: true}
+				for prevRoomID != nil && !seen[*prevRoomID] { // <- the chain of old rooms
+					seen[*prevRoomID] = true
 					// if not joined, bail
 					if !s.joinChecker.IsUserJoined(s.userID, *prevRoomID) {
 						break
@@ -496,9 +498,10 @@ func (s *ConnState) buildRooms(ctx context.Context, builtSubs []BuiltSubscriptio
 					oldRoomIDs = append(oldRoomIDs, *prevRoomID)
 					// keep checking
 					prevRoom := s.lists.ReadOnlyRoom(*prevRoomID)
-					if prevRoom != nil {
-						prevRoomID = prevRoom.PredecessorRoomID
+					if prevRoom == nil {
+						break // we have not processed the join yet
 					}
+					prevRoomID = prevRoom.PredecessorRoomID
 				}
 			}
 
-- 
2.43.0


From 4e5abbbea167b9ab19f2be1fce53d438e267b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:15 +0000
Subject: [PATCH 25/35] fix: do not panic when the access token is empty

The error of the 401 response was nil, so writing the response panicked.
---
 sync3/handler/handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sync3/handler/handler.go b/sync3/handler/handler.go
index 9ab0db7..468d77d 100644
--- a/sync3/handler/handler.go
+++ b/sync3/handler/handler.go
@@ -351,7 +351,10 @@ func (h *SyncLiveHandler) setupConnection(req *http.Request, cancel context.Canc
 	var conn *sync3.Conn
 	// Extract an access token
 	accessToken, err := internal.ExtractAccessToken(req)
-	if err != nil || accessToken == "" {
+	if err == nil && accessToken == "" {
+		err = fmt.Errorf("empty access token")
+	}
+	if err != nil {
 		hlog.FromRequest(req).Warn().Err(err).Msg("failed to get access token from request")
 		return req, nil, &internal.HandlerError{
 			StatusCode: http.StatusUnauthorized,
-- 
2.43.0


From b70ce8c4822b21dc018b3c0a2dc47c7593e81c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:27 +0000
Subject: [PATCH 26/35] fix: report a failure to load the room lists

If the rooms of a new connection could not be loaded, the client was told that it had no rooms, with a 200 response
and a valid position.
---
 sync3/handler/connstate.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 428c5c2..52cca62 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -181,6 +181,8 @@ func (s *ConnState) OnIncomingRequest(ctx context.Context, cid sync3.ConnID, req
 			// in practice this means DB hit failures. If we try again later maybe it'll work, and we will because
 			// anchorLoadPosition is unset.
 			logger.Err(err).Str("conn", cid.String()).Msg("failed to load initial data")
+			region.End()
+			return nil, err
 		}
 		region.End()
 	}
-- 
2.43.0


From 8576b638b5343dcf032a90c80ef97006b5bdbb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:09 +0000
Subject: [PATCH 27/35] fix: do not modify the spaces of a room whilst
 connections read them

Connections keep copies of UserRoomData which share its map of spaces, and read that map when filtering lists. A space
update modified the map in place: "concurrent map read and map write" takes the whole process down.
---
 sync3/caches/user.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 4822b2b..61d89f4 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -576,13 +576,22 @@ func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlight
 }
 
 func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID string, isDeleted bool, eventData *EventData) {
-	childURD := c.LoadRoomData(childRoomID)
+	c.roomToDataMu.Lock()
+	childURD, ok := c.roomToData[childRoomID]
+	if !ok {
+		childURD = NewUserRoomData()
+	}
+	// copy the spaces as connections hold on to the existing map and read it without locks
+	spaces := make(map[string]struct{}, len(childURD.Spaces)+1)
+	for spaceRoomID := range childURD.Spaces {
+		spaces[spaceRoomID] = struct{}{}
+	}
 	if isDeleted {
-		delete(childURD.Spaces, parentRoomID)
+		delete(spaces, parentRoomID)
 	} else {
-		childURD.Spaces[parentRoomID] = struct{}{}
+		spaces[parentRoomID] = struct{}{}
 	}
-	c.roomToDataMu.Lock()
+	childURD.Spaces = spaces
 	c.roomToData[childRoomID] = childURD
 	c.roomToDataMu.Unlock()
 
-- 
2.43.0


From e924a0098ee06d6622633f654069f060fe6f66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:11 +0000
Subject: [PATCH 28/35] fix: do not lose concurrent updates to a user's room
 data

The callbacks read a room's data, changed it and wrote it back without holding the lock in between. Setting up the
user's cache on a new connection (OnRegistered, initial invites and counts) runs concurrently with updates from the
pollers, so one could undo the other, e.g resurrect a retired invite or lose an unread count.
---
 sync3/caches/user.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sync3/caches/user.go b/sync3/caches/user.go
index 61d89f4..bdf6243 100644
--- a/sync3/caches/user.go
+++ b/sync3/caches/user.go
@@ -551,7 +551,11 @@ func (c *UserCache) emitOnUpdate(ctx context.Context, update Update) {
 }
 
 func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlightCount, notifCount *int) {
-	data := c.LoadRoomData(roomID)
+	c.roomToDataMu.Lock()
+	data, ok := c.roomToData[roomID]
+	if !ok {
+		data = NewUserRoomData()
+	}
 	hasCountDecreased := false
 	if highlightCount != nil {
 		hasCountDecreased = *highlightCount < data.HighlightCount
@@ -563,7 +567,6 @@ func (c *UserCache) OnUnreadCounts(ctx context.Context, roomID string, highlight
 		}
 		data.NotificationCount = *notifCount
 	}
-	c.roomToDataMu.Lock()
 	c.roomToData[roomID] = data
 	c.roomToDataMu.Unlock()
 
@@ -607,8 +610,11 @@ func (c *UserCache) OnSpaceUpdate(ctx context.Context, parentRoomID, childRoomID
 }
 
 func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
-	// add this to our tracked timelines if we have one
-	urd := c.LoadRoomData(eventData.RoomID)
+	c.roomToDataMu.Lock()
+	urd, ok := c.roomToData[eventData.RoomID]
+	if !ok {
+		urd = NewUserRoomData()
+	}
 	// reset the IsInvite field when the user actually joins/rejects the invite
 	if urd.IsInvite && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		urd.IsInvite = eventData.Content.Get("membership").Str == "invite"
@@ -620,15 +626,14 @@ func (c *UserCache) OnNewEvent(ctx context.Context, eventData *EventData) {
 	if urd.HasLeft && eventData.EventType == "m.room.member" && eventData.StateKey != nil && *eventData.StateKey == c.UserID {
 		urd.HasLeft = eventData.Content.Get("membership").Str != "join"
 	}
+	c.roomToData[eventData.RoomID] = urd
+	c.roomToDataMu.Unlock()
 	if eventData.EventType == "m.space.child" && eventData.StateKey != nil {
 		// the children for a space we are a part of have changed. Find the room that was affected and update our cache value.
 		childRoomID := *eventData.StateKey
 		isDeleted := !eventData.Content.Get("via").IsArray()
 		c.OnSpaceUpdate(ctx, eventData.RoomID, childRoomID, isDeleted, eventData)
 	}
-	c.roomToDataMu.Lock()
-	c.roomToData[eventData.RoomID] = urd
-	c.roomToDataMu.Unlock()
 
 	roomUpdate := &RoomEventUpdate{
 		RoomUpdate: c.newRoomUpdate(ctx, eventData.RoomID),
@@ -644,13 +649,16 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 		return // malformed invite
 	}
 
-	urd := c.LoadRoomData(roomID)
+	c.roomToDataMu.Lock()
+	urd, ok := c.roomToData[roomID]
+	if !ok {
+		urd = NewUserRoomData()
+	}
 	urd.IsInvite = true
 	urd.HasLeft = false
 	urd.HighlightCount = InvitesAreHighlightsValue
 	urd.IsDM = inviteData.IsDM
 	urd.Invite = inviteData
-	c.roomToDataMu.Lock()
 	c.roomToData[roomID] = urd
 	c.roomToDataMu.Unlock()
 
@@ -668,13 +676,16 @@ func (c *UserCache) OnInvite(ctx context.Context, roomID string, inviteStateEven
 }
 
 func (c *UserCache) OnLeftRoom(ctx context.Context, roomID string, leaveEvent json.RawMessage) {
-	urd := c.LoadRoomData(roomID)
+	c.roomToDataMu.Lock()
+	urd, ok := c.roomToData[roomID]
+	if !ok {
+		urd = NewUserRoomData()
+	}
 	wasInvite := urd.IsInvite
 	urd.IsInvite = false
 	urd.HasLeft = true
 	urd.Invite = nil
 	urd.HighlightCount = 0
-	c.roomToDataMu.Lock()
 	c.roomToData[roomID] = urd
 	c.roomToDataMu.Unlock()
 
-- 
2.43.0


From 74c74fcd59cd5e7299526c12a954fbf6512753a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:13 +0000
Subject: [PATCH 29/35] fix: do not modify room updates which are shared
 between connections

All connections of a user receive the same update, and each removed the user from the heroes in place. Two doing so at
the same time could remove another member as well.
---
 sync3/handler/connstate_live.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index a85a806..339c1d0 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -272,7 +272,7 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 		thisRoom, exists := response.Rooms[roomUpdate.RoomID()]
 		if exists {
 			if delta.RoomNameChanged {
-				metadata := roomUpdate.GlobalRoomMetadata()
+				metadata := roomUpdate.GlobalRoomMetadata().DeepCopy() // the update is shared with other connections
 				metadata.RemoveHero(s.userID)
 				roomName, calculated := internal.CalculateRoomName(metadata, 5) // TODO: customisable?
 
@@ -283,7 +283,7 @@ func (s *connStateLive) processLiveUpdate(ctx context.Context, up caches.Update,
 				}
 			}
 			if delta.RoomAvatarChanged {
-				metadata := roomUpdate.GlobalRoomMetadata()
+				metadata := roomUpdate.GlobalRoomMetadata().DeepCopy() // the update is shared with other connections
 				metadata.RemoveHero(s.userID)
 				thisRoom.AvatarChange = sync3.NewAvatarChange(internal.CalculateAvatar(metadata, roomUpdate.UserRoomMetadata().IsDM))
 			}
-- 
2.43.0


From 12933ca9daafe1cf7eb6397e0aff62bf649ab421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:36 +0000
Subject: [PATCH 30/35] fix: do not race on the connection's liveness and
 cancel callback

bufferFull is written by whichever goroutine delivers updates and read by requests looking the connection up, and the
cancel callback is replaced by each request whilst other goroutines destroy the connection: both were plain fields.
---
 sync3/handler/connstate.go      | 21 +++++++++++++++------
 sync3/handler/connstate_live.go |  7 ++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 52cca62..088fc18 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"context"
 	"encoding/json"
+	"sync"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -23,9 +24,12 @@ type ConnState struct {
 	userID   string
 	deviceID string
 	// the only thing that can touch these data structures is the conn goroutine
-	muxedReq        *sync3.Request
-	cancelLatestReq context.CancelFunc
-	lists           *sync3.InternalRequestLists
+	muxedReq *sync3.Request
+	lists    *sync3.InternalRequestLists
+
+	// cancels the request being processed, if any. Called from whichever goroutine destroys the connection.
+	cancelLatestReq   context.CancelFunc
+	cancelLatestReqMu sync.Mutex
 
 	// Confirmed room subscriptions. Entries in this list have been checked for things like
 	// "is the user joined to this room?" whereas subscriptions in muxedReq are untrusted.
@@ -742,13 +746,16 @@ func (s *ConnState) trackProcessDuration(ctx context.Context, dur time.Duration,
 func (s *ConnState) Destroy() {
 	s.userCache.Unsubscribe(s.userCacheID)
 	logger.Debug().Str("user_id", s.userID).Str("device_id", s.deviceID).Msg("cancelling any in-flight requests")
-	if s.cancelLatestReq != nil {
-		s.cancelLatestReq()
+	s.cancelLatestReqMu.Lock()
+	cancel := s.cancelLatestReq
+	s.cancelLatestReqMu.Unlock()
+	if cancel != nil {
+		cancel()
 	}
 }
 
 func (s *ConnState) Alive() bool {
-	return !s.live.bufferFull
+	return !s.live.bufferFull.Load()
 }
 
 func (s *ConnState) UserID() string {
@@ -787,6 +794,8 @@ func (s *ConnState) PublishEventsUpTo(roomID string, nid int64) {
 }
 
 func (s *ConnState) SetCancelCallback(cancel context.CancelFunc) {
+	s.cancelLatestReqMu.Lock()
+	defer s.cancelLatestReqMu.Unlock()
 	s.cancelLatestReq = cancel
 }
 
diff --git a/sync3/handler/connstate_live.go b/sync3/handler/connstate_live.go
index 339c1d0..0794dba 100644
--- a/sync3/handler/connstate_live.go
+++ b/sync3/handler/connstate_live.go
@@ -3,6 +3,7 @@ package handler
 import (
 	"context"
 	"encoding/json"
+	"sync/atomic"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -24,14 +25,14 @@ type connStateLive struct {
 	// Consumed when the conn is read. There is a limit to how many updates we will store before
 	// saying the client is dead and clean up the conn.
 	updates    chan caches.Update
-	bufferFull bool
+	bufferFull atomic.Bool
 }
 
 // Called when there is an update from the user cache. This callback fires when the server gets a new event and determines this connection MAY be
 // interested in it (e.g the client is joined to the room or it's an invite, etc).
 // We need to move this data onto a channel for onIncomingRequest to consume later.
 func (s *connStateLive) onUpdate(up caches.Update) {
-	if s.bufferFull {
+	if s.bufferFull.Load() {
 		return
 	}
 	select {
@@ -40,7 +41,7 @@ func (s *connStateLive) onUpdate(up caches.Update) {
 		logger.Warn().Interface("update", up).Str("user", s.userID).Str("device", s.deviceID).Msg(
 			"cannot send update to connection, buffer exceeded. Destroying connection.",
 		)
-		s.bufferFull = true
+		s.bufferFull.Store(true)
 		s.Destroy()
 	}
 }
-- 
2.43.0


From c3e60e12ce0e8d67c5bcf3ff55220c86f4f9628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:38 +0000
Subject: [PATCH 31/35] fix: do not race on whether the pubsub is closed

Two concurrent calls of Close could both see closed=false and close every channel twice, which panics.
---
 pubsub/pubsub.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pubsub/pubsub.go b/pubsub/pubsub.go
index f3132ae..822496f 100644
--- a/pubsub/pubsub.go
+++ b/pubsub/pubsub.go
@@ -94,12 +94,12 @@ func (ps *PubSub) Notify(chanName string, p Payload) error {
 }
 
 func (ps *PubSub) Close() error {
+	ps.mu.Lock()
+	defer ps.mu.Unlock()
 	if ps.closed {
 		return nil
 	}
 	ps.closed = true
-	ps.mu.Lock()
-	defer ps.mu.Unlock()
 	for _, ch := range ps.chans {
 		close(ch)
 	}
-- 
2.43.0


From 0a004028d1859fcfbfa0dcdbd9380541b8e3a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:40 +0000
Subject: [PATCH 32/35] fix: do not race on a connection's position when it is
 replaced

CreateConn reads the position of the connection it replaces, which a request on that connection may be updating.
---
 sync3/conn.go    | 7 ++++---
 sync3/connmap.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sync3/conn.go b/sync3/conn.go
index 7fcb32e..5241855 100644
--- a/sync3/conn.go
+++ b/sync3/conn.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/matrix-org/sliding-sync/internal"
@@ -57,7 +58,7 @@ type Conn struct {
 	// - Everything before it is old and can be deleted
 	// - Everything after that is new and unseen, and the first element is the one we want to return.
 	serverResponses []Response
-	lastPos         int64
+	lastPos         int64 // atomic, as ConnMap reads it whilst requests are processed
 
 	// ensure only 1 incoming request is handled per connection
 	mu                         *sync.Mutex
@@ -236,11 +237,11 @@ func (c *Conn) OnIncomingRequest(ctx context.Context, req *Request, start time.T
 	// cache errors or panics and result in getting wedged or tightlooping.
 	c.lastClientRequest = *req
 	// this position is the highest stored pos +1
-	resp.Pos = fmt.Sprintf("%d", c.lastPos+1)
+	resp.Pos = fmt.Sprintf("%d", atomic.LoadInt64(&c.lastPos)+1)
 	resp.TxnID = req.TxnID
 	// buffer it
 	c.serverResponses = append(c.serverResponses, *resp)
-	c.lastPos = resp.PosInt()
+	atomic.StoreInt64(&c.lastPos, resp.PosInt())
 	if nextUnACKedResponse == nil {
 		nextUnACKedResponse = resp
 	}
diff --git a/sync3/connmap.go b/sync3/connmap.go
index 826c2ea..1f2b30d 100644
--- a/sync3/connmap.go
+++ b/sync3/connmap.go
@@ -3,6 +3,7 @@ package sync3
 import (
 	"context"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"golang.org/x/exp/slices"
@@ -142,7 +143,7 @@ func (m *ConnMap) CreateConn(cid ConnID, cancel context.CancelFunc, newConnHandl
 	conn := m.getConn(cid)
 	if conn != nil {
 		// tear down this connection and fallthrough
-		isSpamming := conn.lastPos <= 1
+		isSpamming := atomic.LoadInt64(&conn.lastPos) <= 1
 		if isSpamming {
 			// the existing connection has only just been used for one response, and now they are asking
 			// for a new connection. Apply an artificial delay here to stop buggy clients from spamming
-- 
2.43.0


From b7454ccbbe21c8226249f0c37f8e364b996aac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:37 +0000
Subject: [PATCH 33/35] fix: apply changed filters to lists which get all rooms

When the filters of a slow_get_all_rooms list changed, the rooms matching the earlier filters were sent again and the
list kept using the earlier filters, as the request was answered before the list was re-created.
---
 sync3/handler/connstate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sync3/handler/connstate.go b/sync3/handler/connstate.go
index 088fc18..f9d5826 100644
--- a/sync3/handler/connstate.go
+++ b/sync3/handler/connstate.go
@@ -282,6 +282,10 @@ func (s *ConnState) onIncomingListRequest(ctx context.Context, builder *RoomsBui
 	if nextReqList.ShouldGetAllRooms() {
 		if overwritten || prevReqList.FiltersChanged(nextReqList) {
 			// this is either a new list or the filters changed, so we need to splat all the rooms to the client.
+			if !overwritten {
+				// we need to re-create the list as the rooms may have completely changed
+				roomList, _ = s.lists.AssignList(ctx, listKey, nextReqList.Filters, nextReqList.Sort, sync3.Overwrite)
+			}
 			subID := builder.AddSubscription(nextReqList.RoomSubscription)
 			allRoomIDs := roomList.RoomIDs()
 			builder.AddRoomsToSubscription(ctx, subID, allRoomIDs)
-- 
2.43.0


From 86a190f18827729f23f2f30a0c91adb00a7549ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:20 +0000
Subject: [PATCH 34/35] fix: remember to-device positions per user and device

Device IDs are only unique per user, but whether a device was seen since startup was remembered by device ID alone.
If another user had a device of the same ID, the since value of a device's first request was used, which deletes
messages the device has not received if the sequence started over.
---
 sync3/extensions/todevice.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sync3/extensions/todevice.go b/sync3/extensions/todevice.go
index 430c3da..131b09f 100644
--- a/sync3/extensions/todevice.go
+++ b/sync3/extensions/todevice.go
@@ -16,9 +16,15 @@ import (
 // when the response is genuinely lost, but then we would expect the Conn cache to pick it up based
 // on resending the `?pos=`, so it could mean they really aren't incrementing it and it's a client bug,
 // which is bad because it can result in duplicate to-device events which breaks the encryption state machine
-var deviceIDToSinceDebugOnly = map[string]int64{}
+var deviceIDToSinceDebugOnly = map[userDevice]int64{}
 var mapMu = &sync.Mutex{}
 
+// device IDs are only unique per user
+type userDevice struct {
+	userID   string
+	deviceID string
+}
+
 // Client created request params
 type ToDeviceRequest struct {
 	Core
@@ -66,8 +72,9 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 	}
 	l := logger.With().Str("user", extCtx.UserID).Str("device", extCtx.DeviceID).Logger()
 
+	device := userDevice{userID: extCtx.UserID, deviceID: extCtx.DeviceID}
 	mapMu.Lock()
-	lastSentPos, exists := deviceIDToSinceDebugOnly[extCtx.DeviceID]
+	lastSentPos, exists := deviceIDToSinceDebugOnly[device]
 	internal.Logf(ctx, "to_device", "since=%v limit=%v last_sent=%v", r.Since, r.Limit, lastSentPos)
 	isFirstRequest := !exists
 	mapMu.Unlock()
@@ -129,7 +136,7 @@ func (r *ToDeviceRequest) ProcessInitial(ctx context.Context, res *Response, ext
 		return
 	}
 	mapMu.Lock()
-	deviceIDToSinceDebugOnly[extCtx.DeviceID] = upTo
+	deviceIDToSinceDebugOnly[device] = upTo
 	mapMu.Unlock()
 	// we don't need to aggregate here as we're pulling from the DB and not relying on in-memory structs
 	res.ToDevice = &ToDeviceResponse{
-- 
2.43.0


From 955970843425aa625d5c5d44d0adc182ccc951a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 35/35] fix: do not return the last state event twice, nor
 messages as state

---
 state/storage.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/state/storage.go b/state/storage.go
index fe2fd1d..e78bc3b 100644
--- a/state/storage.go
+++ b/state/storage.go
@@ -690,6 +690,20 @@ func (s *Storage) RoomStateAfterEventPosition(ctx context.Context, roomIDs []str
 			// we handle the replace case but don't handle brand new state events
 			for i := range latestEvents {
 				if latestEvents[i].ReplacesNID == 0 {
+					if !gjson.GetBytes(latestEvents[i].JSON, "state_key").Exists() {
+						continue // not a state event
+					}
+					// an event which came with the initial state of the room is already in the snapshot
+					alreadyExists := false
+					for _, ev := range roomToEvents[latestEvents[i].RoomID] {
+						if ev.NID == latestEvents[i].NID {
+							alreadyExists = true
+							break
+						}
+					}
+					if alreadyExists {
+						continue
+					}
 					// check if we should include it
 					for evType, stateKeys := range eventTypesToStateKeys {
 						if evType != latestEvents[i].Type {
-- 
2.43.0

