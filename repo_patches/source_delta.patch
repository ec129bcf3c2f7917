From aa8df2c3fe0d54eca9cf7fd344d224fb2007d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 01/69] fix: activation of the first layer ties with the
 default layout

The layer clock started at 1, which is also the activation time of the
active layout, so that the first layer activated lost against a layout
defined after it.
---
 src/keyboard.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..b401f61 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -14,8 +14,13 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 
 static long get_time()
 {
-	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	/*
+	 * Close enough :/. Using a syscall is unnecessary.
+	 *
+	 * NOTE: 0 and 1 are the activation times of the main layer and of
+	 * the active layout, which must precede those of all other layers.
+	 */
+	static long time = 2;
 	return time++;
 }
 
-- 
2.43.0


From 591b181bc474204a3a48b22b6b31bcdf148963c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 02/69] fix: a used oneshot key must not latch because another
 one was struck

The latch was shared by all oneshot keys, so that a oneshot key which had
been used as an ordinary layer key turned into a tapped one on release if
a second oneshot key was pressed in the meantime.
---
 src/keyboard.c | 6 +++---
 src/keyboard.h | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index b401f61..7f2565b 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -410,7 +410,7 @@ static void clear_oneshot(struct keyboard *kbd)
 			kbd->layer_state[i].oneshot_depth--;
 		}
 
-	kbd->oneshot_latch = 0;
+	memset(kbd->oneshot_latch, 0, sizeof kbd->oneshot_latch);
 	kbd->oneshot_timeout = 0;
 }
 
@@ -660,9 +660,9 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 		if (pressed) {
 			activate_layer(kbd, code, idx);
 			update_mods(kbd, dl, 0);
-			kbd->oneshot_latch = 1;
+			kbd->oneshot_latch[code] = 1;
 		} else {
-			if (kbd->oneshot_latch) {
+			if (kbd->oneshot_latch[code]) {
 				kbd->layer_state[idx].oneshot_depth++;
 				if (kbd->config.oneshot_timeout) {
 					kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;
diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..e0e0644 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -50,7 +50,8 @@ struct keyboard {
 	uint8_t last_pressed_output_code;
 	uint8_t last_pressed_code;
 
-	uint8_t oneshot_latch;
+	/* Oneshot keys which have been struck, but not consumed. */
+	uint8_t oneshot_latch[256];
 
 	uint8_t inhibit_modifier_guard;
 
-- 
2.43.0


From 3c72ed08e49e00e6ea69c89a86c2f437be9b79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 03/69] fix: actions tapped by overload() must run to
 completion

Actions which resolve to something else when pressed (overloadi, timeout,
overloadt, overloadt2, lettermod) left their key or layer down for good,
macro2 repeated forever, and a macro consisting of a single key left its
modifiers down and did not consume oneshot layers.
---
 src/keyboard.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 7f2565b..3f61f48 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -644,10 +644,23 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					 * descriptor release.
 					 */
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
+
+					clear_oneshot(kbd);
 					execute_macro(kbd, dl, macro);
+					update_mods(kbd, dl, 0);
 				} else {
+					/*
+					 * The action may itself be a timed or nested action which
+					 * resolves to another one, so the release has to take the
+					 * ordinary route.
+					 */
+					cache_set(kbd, code, &(struct cache_entry) {
+						.d = *action,
+						.dl = dl,
+						.layer = 0,
+					});
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From 13ca212b73e0d63805d99468c05523da75bf6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 04/69] fix: nested overloadi() must release what it pressed

The outer overloadi() replaced the cached descriptor after the inner one
(or a swap) had been run, so that the release was a no-op.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3f61f48..eb2a43b 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -557,13 +557,13 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				action = &kbd->config.descriptors[d->args[0].idx];
 
-			process_descriptor(kbd, code, action, dl, 1, time);
 			for (i = 0; i < CACHE_SIZE; i++) {
 				if (code == kbd->cache[i].code) {
 					kbd->cache[i].d = *action;
 					break;
 				}
 			}
+			process_descriptor(kbd, code, action, dl, 1, time);
 		}
 		break;
 	case OP_OVERLOAD_TIMEOUT_TAP:
-- 
2.43.0


From 5963ae557465b7a4bc37636703e76c824f83ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 05/69] fix: clearm() must not leave the modifiers of its macro
 down

---
 src/keyboard.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index eb2a43b..ecaf9c9 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -617,6 +617,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			clear(kbd);
 			macro = &kbd->config.macros[d->args[0].idx];
 			execute_macro(kbd, dl, macro);
+			update_mods(kbd, -1, 0);
 		}
 		break;
 	case OP_CLEAR:
-- 
2.43.0


From fcd71a636e219aebb388c69d061f0ea49fc85729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 06/69] fix: a toggle key does not hold the layer it toggles

Otherwise a later swap() takes the layer from the toggle key although
nothing holds it, and fails an assertion.
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index ecaf9c9..23c8811 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -723,7 +723,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->layer_state[idx].toggled = !kbd->layer_state[idx].toggled;
 
 			if (kbd->layer_state[idx].toggled)
-				activate_layer(kbd, code, idx);
+				activate_layer(kbd, 0, idx);
 			else
 				deactivate_layer(kbd, idx);
 
-- 
2.43.0


From c138b8fab096a442d66199d5802a0760ec383c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 07/69] fix: swap() onto a toggled layer must not activate it
 twice

---
 src/keyboard.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 23c8811..8b8c255 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -766,8 +766,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 				deactivate_layer(kbd, dl);
 				kbd->layer_state[dl].toggled = 0;
 
-				activate_layer(kbd, 0, idx);
-				kbd->layer_state[idx].toggled = 1;
+				if (!kbd->layer_state[idx].toggled) {
+					activate_layer(kbd, 0, idx);
+					kbd->layer_state[idx].toggled = 1;
+				}
 				update_mods(kbd, -1, 0);
 			} else if (kbd->layer_state[dl].oneshot_depth) {
 				deactivate_layer(kbd, dl);
-- 
2.43.0


From 7da055a659da633f68972cccbf25d7ab56186fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 08/69] fix: a macro timeout of 0 must disable repetition

It was repeated whenever any other timer (or mouse event) happened to wake
the keyboard up.
---
 src/keyboard.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 8b8c255..84ce168 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -710,8 +710,10 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->active_macro = macro;
 			kbd->active_macro_layer = dl;
 
-			kbd->macro_timeout = time + timeout;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			/* 0 disables repetition */
+			kbd->macro_timeout = timeout ? time + timeout : LONG_MAX;
+			if (timeout)
+				schedule_timeout(kbd, kbd->macro_timeout);
 		}
 
 		break;
@@ -1162,8 +1164,11 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 			update_mods(kbd, -1, 0);
 		} else if (time >= kbd->macro_timeout) {
 			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);
-			kbd->macro_timeout = time+kbd->macro_repeat_interval;
-			schedule_timeout(kbd, kbd->macro_timeout);
+			kbd->macro_timeout = kbd->macro_repeat_interval ?
+						time + kbd->macro_repeat_interval :
+						LONG_MAX;
+			if (kbd->macro_repeat_interval)
+				schedule_timeout(kbd, kbd->macro_timeout);
 		}
 	}
 
-- 
2.43.0


From 1eb1677433f805a25ebfb39bfa5797cc313281a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 09/69] fix: timestamps overflow after 24 days of uptime

Milliseconds of CLOCK_MONOTONIC do not fit an int.
---
 src/daemon.c   | 4 ++--
 src/evloop.c   | 2 +-
 src/keyboard.c | 4 ++--
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..e4524ea 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,7 +460,7 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -476,7 +476,7 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
 
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..b246b66 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,7 +57,7 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
+		long start_time;
 		int elapsed;
 
 		pfds[0].fd = monfd;
diff --git a/src/keyboard.c b/src/keyboard.c
index 84ce168..4bd4ffe 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1213,8 +1213,8 @@ exit:
 long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
 {
 	size_t i = 0;
-	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index e0e0644..431516f 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0


From da9b3034255ec7f76ed98b0545e48bae04a15471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 10/69] fix: many timers must not abort the daemon

The list of deadlines also held those which had become irrelevant, and
overflowed (failing an assertion) after 64 taps of e.g. macros or timed
keys within the timeout. Derive the next deadline from the keyboard state
instead.
---
 src/keyboard.c | 86 ++++++++++++++++++++++++++------------------------
 src/keyboard.h |  3 --
 2 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4bd4ffe..6152e24 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -456,28 +456,49 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 }
 
 
-static void schedule_timeout(struct keyboard *kbd, long timeout)
+/* Returns the earliest pending deadline (0 if there is none). */
+static long next_deadline(struct keyboard *kbd)
 {
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
-	kbd->timeouts[kbd->nr_timeouts++] = timeout;
+	long deadline = 0;
+
+	#define CONSIDER(d) do { \
+		if (!deadline || (d) < deadline) \
+			deadline = (d); \
+	} while(0)
+
+	if (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION)
+		CONSIDER(kbd->chord.last_code_time + kbd->config.chord_interkey_timeout);
+	else if (kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT)
+		CONSIDER(kbd->chord.last_code_time + kbd->config.chord_hold_timeout);
+
+	if (kbd->pending_key.code) {
+		/* Nothing else is processed until the pending key has been resolved. */
+		CONSIDER(kbd->pending_key.expire);
+	} else {
+		if (kbd->active_macro && kbd->macro_timeout != LONG_MAX)
+			CONSIDER(kbd->macro_timeout);
+
+		if (kbd->oneshot_timeout)
+			CONSIDER(kbd->oneshot_timeout);
+	}
+
+	#undef CONSIDER
+
+	return deadline;
 }
 
 static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
 {
-	size_t i;
-	long timeout = 0;
-	size_t n = 0;
+	long deadline = next_deadline(kbd);
 
-	for (i = 0; i < kbd->nr_timeouts; i++)
-		if (kbd->timeouts[i] > time) {
-			if (!timeout || kbd->timeouts[i] < timeout)
-				timeout = kbd->timeouts[i];
-
-			kbd->timeouts[n++] = kbd->timeouts[i];
-		}
+	if (!deadline)
+		return 0;
 
-	kbd->nr_timeouts = n;
-	return timeout ? timeout - time : 0;
+	/*
+	 * Deadlines which have been reached by the time they are set give way
+	 * to the events which immediately follow.
+	 */
+	return deadline > time ? deadline - time : 2;
 }
 
 static long process_descriptor(struct keyboard *kbd, uint8_t code,
@@ -583,8 +604,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.action2.op = OP_LAYER;
 			kbd->pending_key.action2.args[0].idx = layer;
 			kbd->pending_key.expire = time+d->args[2].timeout;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -678,10 +697,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 		} else {
 			if (kbd->oneshot_latch[code]) {
 				kbd->layer_state[idx].oneshot_depth++;
-				if (kbd->config.oneshot_timeout) {
+				if (kbd->config.oneshot_timeout)
 					kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;
-					schedule_timeout(kbd, kbd->oneshot_timeout);
-				}
 			} else {
 				deactivate_layer(kbd, idx);
 				update_mods(kbd, -1, 0);
@@ -712,8 +729,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 
 			/* 0 disables repetition */
 			kbd->macro_timeout = timeout ? time + timeout : LONG_MAX;
-			if (timeout)
-				schedule_timeout(kbd, kbd->macro_timeout);
 		}
 
 		break;
@@ -743,8 +758,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.dl = dl;
 			kbd->pending_key.expire = time + d->args[1].timeout;
 			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -963,31 +976,26 @@ static int handle_chord(struct keyboard *kbd,
 			case 1:
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
 				kbd->chord.last_code_time = time;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
 				kbd->chord.last_code_time = time;
 
-				if (hold_timeout) {
+				if (hold_timeout)
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
-				} else {
+				else
 					return resolve_chord(kbd);
-				}
+
 				return 1;
 		}
 	case CHORD_PENDING_DISAMBIGUATION:
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= interkey_timeout) {
 				if (kbd->chord.match) {
-					long timeleft = hold_timeout - interkey_timeout;
-					if (timeleft > 0) {
-						schedule_timeout(kbd, time + timeleft);
+					if (hold_timeout > interkey_timeout)
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					} else {
+					else
 						return resolve_chord(kbd);
-					}
 				} else {
 					return abort_chord(kbd);
 				}
@@ -1011,18 +1019,16 @@ static int handle_chord(struct keyboard *kbd,
 				kbd->chord.last_code_time = time;
 
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
 				kbd->chord.last_code_time = time;
 
-				if (hold_timeout) {
+				if (hold_timeout)
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
-				} else {
+				else
 					return resolve_chord(kbd);
-				}
+
 				return 1;
 		}
 	case CHORD_PENDING_HOLD_TIMEOUT:
@@ -1167,8 +1173,6 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 			kbd->macro_timeout = kbd->macro_repeat_interval ?
 						time + kbd->macro_repeat_interval :
 						LONG_MAX;
-			if (kbd->macro_repeat_interval)
-				schedule_timeout(kbd, kbd->macro_timeout);
 		}
 	}
 
diff --git a/src/keyboard.h b/src/keyboard.h
index 431516f..15d4a6e 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -68,9 +68,6 @@ struct keyboard {
 
 	long last_simple_key_time;
 
-	long timeouts[64];
-	size_t nr_timeouts; 
-
 	struct active_chord {
 		uint8_t active;
 		struct chord chord;
-- 
2.43.0


From eff710cb285f476633ab6743f58bcc7a7645bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 11/69] fix: deadlines which pass while keys are queued must
 not be lost

A timed key which was queued behind an undecided one (or a chord) and whose
own deadline had passed by the time it was flushed remained undecided until
the next key event.
---
 src/keyboard.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 6152e24..8a092b7 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -878,8 +878,9 @@ struct keyboard *new_keyboard(struct config *config, const struct output *output
 	return kbd;
 }
 
-static int resolve_chord(struct keyboard *kbd)
+static int resolve_chord(struct keyboard *kbd, long time)
 {
+	long deadline;
 	size_t queue_offset = 0;
 	const struct chord *chord = kbd->chord.match;
 
@@ -912,13 +913,19 @@ static int resolve_chord(struct keyboard *kbd)
 			   kbd->chord.queue + queue_offset,
 			   kbd->chord.queue_sz - queue_offset);
 	kbd->chord.state = CHORD_INACTIVE;
+
+	/* Deadlines of flushed events may already have passed. */
+	deadline = next_deadline(kbd);
+	if (deadline && deadline < time)
+		process_event(kbd, 0, 0, time);
+
 	return 1;
 }
 
-static int abort_chord(struct keyboard *kbd)
+static int abort_chord(struct keyboard *kbd, long time)
 {
 	kbd->chord.match = NULL;
-	return resolve_chord(kbd);
+	return resolve_chord(kbd, time);
 }
 
 static int handle_chord(struct keyboard *kbd,
@@ -984,7 +991,7 @@ static int handle_chord(struct keyboard *kbd,
 				if (hold_timeout)
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 				else
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 
 				return 1;
 		}
@@ -992,12 +999,14 @@ static int handle_chord(struct keyboard *kbd,
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= interkey_timeout) {
 				if (kbd->chord.match) {
-					if (hold_timeout > interkey_timeout)
+					if (hold_timeout > interkey_timeout) {
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					else
-						return resolve_chord(kbd);
+						return 0;
+					} else {
+						return resolve_chord(kbd, time);
+					}
 				} else {
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 				}
 
 				return 1;
@@ -1009,11 +1018,11 @@ static int handle_chord(struct keyboard *kbd,
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed)
-			return abort_chord(kbd);
+			return abort_chord(kbd, time);
 
 		switch (check_chord_match(kbd, &kbd->chord.match, &kbd->chord.match_layer)) {
 			case 0:
-				return abort_chord(kbd);
+				return abort_chord(kbd, time);
 			case 3:
 			case 1:
 				kbd->chord.last_code_time = time;
@@ -1027,14 +1036,14 @@ static int handle_chord(struct keyboard *kbd,
 				if (hold_timeout)
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 				else
-					return resolve_chord(kbd);
+					return resolve_chord(kbd, time);
 
 				return 1;
 		}
 	case CHORD_PENDING_HOLD_TIMEOUT:
 		if (!code) {
 			if ((time - kbd->chord.last_code_time) >= hold_timeout)
-				return resolve_chord(kbd);
+				return resolve_chord(kbd, time);
 
 			return 0;
 		}
@@ -1046,7 +1055,7 @@ static int handle_chord(struct keyboard *kbd,
 
 			for (i = 0; i < kbd->chord.match->sz; i++)
 				if (kbd->chord.match->keys[i] == code)
-					return abort_chord(kbd);
+					return abort_chord(kbd, time);
 		}
 
 		return 1;
@@ -1117,6 +1126,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		   allow for recursive pending key processing. */
 		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];
 		size_t queue_sz = kbd->pending_key.queue_sz;
+		long deadline;
 
 		uint8_t code = kbd->pending_key.code;
 		int dl = kbd->pending_key.dl;
@@ -1136,6 +1146,11 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		/* Flush queued events */
 		kbd_process_events(kbd, queue, queue_sz);
+
+		/* Deadlines of flushed events may already have passed. */
+		deadline = next_deadline(kbd);
+		if (deadline && deadline < time)
+			process_event(kbd, 0, 0, time);
 	}
 
 	return 1;
-- 
2.43.0


From 52c7839b22a260d3786bf5b6950c94703fff7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 12/69] fix: long key sequences must not overflow the event
 queues

More than 32 events while a timed key was undecided, or a chord was held,
failed an assertion and terminated the daemon.
---
 src/keyboard.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 8a092b7..90618d2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1058,6 +1058,10 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd, time);
 		}
 
+		/* Out of space */
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return resolve_chord(kbd, time);
+
 		return 1;
 	}
 
@@ -1098,7 +1102,9 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	}
 
 
-	if (time >= kbd->pending_key.expire) {
+	if (time >= kbd->pending_key.expire ||
+	    kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue)) {
+		/* Out of time (or space) */
 		action = kbd->pending_key.action2;
 	} else if (code == kbd->pending_key.code) {
 		if (kbd->pending_key.tap_expiry && time >= kbd->pending_key.tap_expiry) {
-- 
2.43.0


From bcc870c187677e03c5ea67789eb1e511e492f1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 13/69] fix: striking a fourth chord must not terminate the
 daemon

---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 90618d2..0877300 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -902,10 +902,11 @@ static int resolve_chord(struct keyboard *kbd, long time)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* Treat the chord as ordinary keys if too many others are held. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From a5e81ca08987050ac5316da09775765f7cd2e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 14/69] fix: redundant key events must not count as chord keys
 or interruptions

Striking the same key on two keyboards triggered chords, resolved timed keys
and left chord keys stuck. The existing guard only caught redundant events
after chords and timed keys had been dealt with.
---
 src/keyboard.c | 32 ++++++++++++++++++++++++++------
 src/keyboard.h |  3 +++
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 0877300..e726ff7 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -7,6 +7,7 @@
 #include "keyd.h"
 
 static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long time);
+static long process_events(struct keyboard *kbd, const struct key_event *events, size_t n, int queued);
 
 /*
  * Here be tiny dragons.
@@ -910,9 +911,9 @@ static int resolve_chord(struct keyboard *kbd, long time)
 	}
 
 
-	kbd_process_events(kbd,
-			   kbd->chord.queue + queue_offset,
-			   kbd->chord.queue_sz - queue_offset);
+	process_events(kbd,
+		       kbd->chord.queue + queue_offset,
+		       kbd->chord.queue_sz - queue_offset, 1);
 	kbd->chord.state = CHORD_INACTIVE;
 
 	/* Deadlines of flushed events may already have passed. */
@@ -1152,7 +1153,7 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 		process_descriptor(kbd, code, &action, dl, 1, time);
 
 		/* Flush queued events */
-		kbd_process_events(kbd, queue, queue_sz);
+		process_events(kbd, queue, queue_sz, 1);
 
 		/* Deadlines of flushed events may already have passed. */
 		deadline = next_deadline(kbd);
@@ -1236,7 +1237,7 @@ exit:
 }
 
 
-long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
+static long process_events(struct keyboard *kbd, const struct key_event *events, size_t n, int queued)
 {
 	size_t i = 0;
 	long timeout = 0;
@@ -1249,7 +1250,21 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 			timeout = process_event(kbd, 0, 0, timeout_ts);
 			timeout_ts = timeout_ts + timeout;
 		} else {
-			timeout = process_event(kbd, ev->code, ev->pressed, ev->timestamp);
+			uint8_t code = ev->code;
+
+			/*
+			 * Presses of keys which are already down (e.g on another
+			 * device) and releases of keys which are up are only taken
+			 * to mean that time has passed.
+			 */
+			if (code && !queued) {
+				if (kbd->pressed[code] == !!ev->pressed)
+					code = 0;
+				else
+					kbd->pressed[code] = !!ev->pressed;
+			}
+
+			timeout = process_event(kbd, code, code && ev->pressed, ev->timestamp);
 			timeout_ts = ev->timestamp + timeout;
 			i++;
 		}
@@ -1258,6 +1273,11 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return timeout;
 }
 
+long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
+{
+	return process_events(kbd, events, n, 0);
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
diff --git a/src/keyboard.h b/src/keyboard.h
index 15d4a6e..47b6652 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -122,6 +122,9 @@ struct keyboard {
 
 	uint8_t keystate[256];
 
+	/* Physical state of the keys. */
+	uint8_t pressed[256];
+
 	struct {
 		int x;
 		int y;
-- 
2.43.0


From 93f08d7cba3d5ef94a04b7416f00313582a01898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 15/69] fix: delays inside a macro group must not be released
 as keys

a+100ms+b also released the key with code 100.
---
 src/macro.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..ad6f129 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -110,7 +110,9 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From 47a2f8d6de80f3e41c322c71f498d6f0412212c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 16/69] fix: macros must be able to type the first character of
 the table

---
 src/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macro.c b/src/macro.c
index ad6f129..ceb3954 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
-- 
2.43.0


From c58d2496249c9478d84e1db8654e85c8ec62dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 17/69] fix: invalid UTF-8 must not terminate the daemon

A truncated sequence in a macro or in the text sent by a client failed an
assertion.
---
 src/string.c | 27 ++++++++++++++++++---------
 src/string.h |  2 ++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..83f2a8c 100644
--- a/src/string.c
+++ b/src/string.c
@@ -3,8 +3,6 @@
  *
  * © 2019 Raheman Vaiya (see also: LICENSE).
  */
-#include <assert.h>
-
 #include "string.h"
 
 int utf8_read_char(const char *_s, uint32_t *code)
@@ -14,23 +12,34 @@ int utf8_read_char(const char *_s, uint32_t *code)
 	if (!s[0])
 		return 0;
 
+	int i;
+	int n = s[0] >= 0xF0 ? 4 :
+		s[0] >= 0xE0 ? 3 :
+		s[0] >= 0xC0 ? 2 : 1;
+
+	/* Invalid (e.g truncated) sequences do not correspond to any code point. */
+	if (n == 1 && s[0] >= 0x80) {
+		*code = INVALID_CODEPOINT;
+		return 1;
+	}
+
+	for (i = 1; i < n; i++)
+		if ((s[i] & 0xC0) != 0x80) {
+			*code = INVALID_CODEPOINT;
+			return i;
+		}
+
 	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
 	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
 	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
-		*code = s[0] & 0x7F;
+		*code = s[0];
 		return 1;
 	}
 }
diff --git a/src/string.h b/src/string.h
index 3e374cc..04029d5 100644
--- a/src/string.h
+++ b/src/string.h
@@ -9,6 +9,8 @@
 #include <stdint.h>
 #include <stdlib.h>
 
+#define INVALID_CODEPOINT 0xFFFFFFFF
+
 int utf8_read_char(const char *_s, uint32_t *code);
 int utf8_strlen(const char *s);
 
-- 
2.43.0


From 7259e13de7a3afacf24dfca25546d13105d57cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 18/69] fix: the empty string is not a key name

It was an alternative name of the left modifiers, so that e.g. 'C-' was
accepted as a key.
---
 src/keys.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keys.c b/src/keys.c
index 77d055f..d4db658 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -44,7 +44,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_LEFTBRACE] = { "[", "leftbrace", "{" },
 	[KEYD_RIGHTBRACE] = { "]", "rightbrace", "}" },
 	[KEYD_ENTER] = { "enter", NULL, NULL },
-	[KEYD_LEFTCTRL] = { "leftcontrol", "", NULL },
+	[KEYD_LEFTCTRL] = { "leftcontrol", NULL, NULL },
 	[KEYD_IS_LEVEL3_SHIFT] = { "iso-level3-shift", NULL, NULL }, //Oddly missing from input-event-codes.h, appears to be used as altgr in an english keymap on X
 	[KEYD_A] = { "a", NULL, "A" },
 	[KEYD_S] = { "s", NULL, "S" },
@@ -58,7 +58,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SEMICOLON] = { ";", "semicolon", ":" },
 	[KEYD_APOSTROPHE] = { "'", "apostrophe", "\"" },
 	[KEYD_GRAVE] = { "`", "grave", "~" },
-	[KEYD_LEFTSHIFT] = { "leftshift", "", NULL },
+	[KEYD_LEFTSHIFT] = { "leftshift", NULL, NULL },
 	[KEYD_BACKSLASH] = { "\\", "backslash", "|" },
 	[KEYD_Z] = { "z", NULL, "Z" },
 	[KEYD_X] = { "x", NULL, "X" },
@@ -72,7 +72,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_SLASH] = { "/", "slash", "?" },
 	[KEYD_RIGHTSHIFT] = { "rightshift", NULL, NULL },
 	[KEYD_KPASTERISK] = { "kpasterisk", NULL, NULL },
-	[KEYD_LEFTALT] = { "leftalt", "", NULL },
+	[KEYD_LEFTALT] = { "leftalt", NULL, NULL },
 	[KEYD_SPACE] = { "space", NULL, NULL },
 	[KEYD_CAPSLOCK] = { "capslock", NULL, NULL },
 	[KEYD_F1] = { "f1", NULL, NULL },
@@ -140,7 +140,7 @@ const struct keycode_table_ent keycode_table[256] = {
 	[KEYD_HANGEUL] = { "hangeul", NULL, NULL },
 	[KEYD_HANJA] = { "hanja", NULL, NULL },
 	[KEYD_YEN] = { "yen", NULL, NULL },
-	[KEYD_LEFTMETA] = { "leftmeta", "", NULL },
+	[KEYD_LEFTMETA] = { "leftmeta", NULL, NULL },
 	[KEYD_RIGHTMETA] = { "rightmeta", NULL, NULL },
 	[KEYD_COMPOSE] = { "compose", NULL, NULL },
 	[KEYD_STOP] = { "stop", NULL, NULL },
-- 
2.43.0


From 8bf55fd2f6bf41b75ca25ea92ec13b1e14358ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 19/69] fix: a dot in the action does not terminate the layer
 name

bind 'a = .' (or 'a = C-.') looked for a layer called 'a = '.
---
 src/config.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..337f2b7 100644
--- a/src/config.c
+++ b/src/config.c
@@ -985,7 +985,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1002,9 +1002,9 @@ int config_add_entry(struct config *config, const char *exp)
 	s = buf;
 
 	dot = strchr(s, '.');
-	paren = strchr(s, '(');
+	eq = *s ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	if (dot && dot != s && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From 56a3387909aeb0fc7ad271df6412271f4c6c4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 20/69] fix: bindings without a key or action must be refused

An empty key bound every key without an alias, and an expression without
'=' removed the binding of the key.
---
 src/config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config.c b/src/config.c
index 337f2b7..665518c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1011,6 +1011,12 @@ int config_add_entry(struct config *config, const char *exp)
 	}
 
 	parse_kvp(s, &keyname, &descstr);
+
+	if (!keyname[0] || !descstr) {
+		err("invalid binding");
+		return -1;
+	}
+
 	idx = config_get_layer_index(config, layername);
 
 	if (idx == -1) {
-- 
2.43.0


From 217d34a0d129cc4f466e5270e382f3a83980521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 21/69] fix: a chord must not replace a longer chord which
 contains it

---
 src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 665518c..234a17b 100644
--- a/src/config.c
+++ b/src/config.c
@@ -218,7 +218,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && n == chord->sz)
 			return &chord->d;
 	}
 
-- 
2.43.0


From 4de1dadb73fb324c16a5b32dc3bb10c964114d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 22/69] fix: malformed configurations must not terminate the
 daemon

Options and aliases without a value, empty headings and too many sections,
entries, ids, arguments or constituents crashed or overran their buffers.
---
 src/config.c | 35 ++++++++++++++++++++++++++---------
 src/ini.c    | 19 +++++++++++++------
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/config.c b/src/config.c
index 234a17b..81735b7 100644
--- a/src/config.c
+++ b/src/config.c
@@ -259,6 +259,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("%s is not a valid key or alias", key);
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
@@ -315,7 +319,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -333,7 +336,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
@@ -378,6 +381,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("[%s] is not a valid section name", s);
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
@@ -453,7 +461,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
@@ -547,6 +557,7 @@ static int parse_descriptor(char *s,
 	int ret;
 	struct macro macro;
 	struct command cmd;
+	char buf[1024];
 
 	if (!s || !s[0]) {
 		d->op = 0;
@@ -616,8 +627,6 @@ static int parse_descriptor(char *s,
 		int i;
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
@@ -736,6 +745,11 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
+		if (!ent->val) {
+			warn("line %zd: %s requires a value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
@@ -773,23 +787,21 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max ids (%zd) exceeded", ARRAY_SIZE(config->ids));
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
@@ -808,6 +820,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: missing alias", ent->lnum);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
diff --git a/src/ini.c b/src/ini.c
index 6029293..cdae3ca 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -5,15 +5,14 @@
  */
 #include <ctype.h>
 #include <string.h>
-#include <assert.h>
 #include <unistd.h>
 #include <fcntl.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <sys/stat.h>
-#include <assert.h>
 
 #include "ini.h"
+#include "log.h"
 #define MAX_INI_SIZE 65536
 
 /*
@@ -107,13 +106,16 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				if (n >= MAX_SECTIONS) {
+					err("line %d: max sections (%d) exceeded", ln, MAX_SECTIONS);
+					return NULL;
+				}
 
 				section = &ini.sections[n++];
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				snprintf(section->name, sizeof(section->name), "%s", line+1);
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -132,11 +134,16 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 				section->nr_entries = 0;
 				section->lnum = 0;
-			} else
+			} else {
+				err("line %d: missing section heading", ln);
 				return NULL;
+			}
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES) {
+			err("line %d: max section entries (%d) exceeded", ln, MAX_SECTION_ENTRIES);
+			return NULL;
+		}
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From 3b4523770390c30d20a73e3fefbe2b308f1bca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 23/69] fix: reading configuration files must not overrun its
 buffers

Large files, lines which start with a NUL byte and final lines without a
newline read or wrote out of bounds, and an included file without a final
newline was merged with the line after the include.
---
 src/config.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index 81735b7..c336c85 100644
--- a/src/config.c
+++ b/src/config.c
@@ -110,7 +110,7 @@ static char *read_file(const char *path)
 {
 	const char include_prefix[] = "include ";
 
-	static char buf[MAX_FILE_SZ];
+	static char buf[MAX_FILE_SZ+1];
 	char line[MAX_LINE_LEN+1];
 	int sz = 0;
 
@@ -123,12 +123,13 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
-		if (line[len-1] != '\n') {
+		if (len == 0 || line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
@@ -161,12 +162,22 @@ static char *read_file(const char *path)
 				perror("open");
 			} else {
 				int n;
-				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
+				int start = sz;
+
+				while ((n = read(fd, buf+sz, MAX_FILE_SZ-sz)) > 0)
 					sz += n;
 				close(fd);
+
+				if (sz >= MAX_FILE_SZ) {
+					err("maximum file size exceed (%d)", MAX_FILE_SZ);
+					goto fail;
+				}
+
+				if (sz != start && buf[sz-1] != '\n')
+					buf[sz++] = '\n';
 			}
 		} else {
-			strcpy(buf+sz, line);
+			memcpy(buf+sz, line, len);
 			sz += len;
 		}
 	}
-- 
2.43.0


From 4965f9e853a8d286f57880c6169ef2f93970f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 24/69] fix: noop inside a macro must not be sent to
 applications

---
 src/macro.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index ceb3954..ca7bde8 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -101,7 +101,8 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 			if (hold_start == -1)
 				hold_start = i;
 
-			output(ent->data, 1);
+			if (ent->data != KEYD_NOOP)
+				output(ent->data, 1);
 
 			break;
 		case MACRO_RELEASE:
@@ -111,7 +112,7 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
 
-					if (ent->type == MACRO_HOLD)
+					if (ent->type == MACRO_HOLD && ent->data != KEYD_NOOP)
 						output(ent->data, 0);
 				}
 
@@ -144,8 +145,10 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 			if (mods && timeout)
 				usleep(timeout);
 
-			output(code, 1);
-			output(code, 0);
+			if (code != KEYD_NOOP) {
+				output(code, 1);
+				output(code, 0);
+			}
 
 			for (j = 0; j < ARRAY_SIZE(modifiers); j++) {
 				uint8_t code = modifiers[j].key;
-- 
2.43.0


From ad7450a27134cd23a9d4d6fc8339c33d05c5835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 25/69] fix: keys waiting for a chord must not overtake those
 behind a timed key

---
 src/keyboard.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index e726ff7..e1dcf7e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1070,6 +1070,12 @@ static int handle_chord(struct keyboard *kbd,
 	return 0;
 }
 
+static int chord_pending(struct keyboard *kbd)
+{
+	return kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
+	       kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT;
+}
+
 int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long time)
 {
 	if (!kbd->pending_key.code)
@@ -1106,8 +1112,16 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 	if (time >= kbd->pending_key.expire ||
 	    kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue)) {
-		/* Out of time (or space) */
-		action = kbd->pending_key.action2;
+		/*
+		 * Out of time (or space). Keys which are still being considered
+		 * for a chord have been struck nonetheless.
+		 */
+		if (kbd->pending_key.behaviour == PK_INTERRUPT_ACTION1 &&
+		    chord_pending(kbd) &&
+		    kbd->chord.queue[0].timestamp < kbd->pending_key.expire)
+			action = kbd->pending_key.action1;
+		else
+			action = kbd->pending_key.action2;
 	} else if (code == kbd->pending_key.code) {
 		if (kbd->pending_key.tap_expiry && time >= kbd->pending_key.tap_expiry) {
 			action.op = OP_KEYSEQUENCE;
@@ -1132,7 +1146,8 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue)];
+		struct key_event queue[ARRAY_SIZE(kbd->pending_key.queue) +
+				       ARRAY_SIZE(kbd->chord.queue)];
 		size_t queue_sz = kbd->pending_key.queue_sz;
 		long deadline;
 
@@ -1141,6 +1156,14 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 
 		memcpy(queue, kbd->pending_key.queue, sizeof kbd->pending_key.queue);
 
+		/* Potential chord keys follow those held back by the pending key. */
+		if (chord_pending(kbd)) {
+			memcpy(queue + queue_sz, kbd->chord.queue,
+			       kbd->chord.queue_sz * sizeof(queue[0]));
+			queue_sz += kbd->chord.queue_sz;
+			kbd->chord.state = CHORD_INACTIVE;
+		}
+
 		kbd->pending_key.code = 0;
 		kbd->pending_key.queue_sz = 0;
 		kbd->pending_key.tap_expiry = 0;
-- 
2.43.0


From f8aee5abebb67207d0700ecb6336efdfaac9c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 26/69] fix: reset must not change the actions of keys which
 are held

---
 src/keyboard.c | 35 +++++++++++++++++++++++++++++++----
 src/keyboard.h |  1 +
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index e1dcf7e..69004e4 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -362,12 +362,17 @@ static int check_chord_match(struct keyboard *kbd, const struct chord **chord, i
 		}
 	}
 
-	if (full_match)
+	if (full_match) {
+		/* The layer may be modified while the chord is pending. */
+		kbd->chord.match_copy = **chord;
+		*chord = &kbd->chord.match_copy;
+
 		return partial_match ? 3 : 2;
-	else if (partial_match)
+	} else if (partial_match) {
 		return 1;
-	else
+	} else {
 		return 0;
+	}
 }
 
 static void execute_command(const char *cmd)
@@ -1301,10 +1306,32 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return process_events(kbd, events, n, 0);
 }
 
+static void reset_config(struct keyboard *kbd)
+{
+	size_t i;
+	struct config *config = &kbd->config;
+	const struct config *original = kbd->original_config;
+	int busy = kbd->pending_key.code || kbd->active_macro || chord_pending(kbd);
+
+	for (i = 0; i < CACHE_SIZE; i++)
+		if (kbd->cache[i].code &&
+		    (kbd->cache[i].d.op == OP_OVERLOAD || kbd->cache[i].d.op == OP_SWAPM))
+			busy = 1;
+
+	memcpy(config->layers, original->layers, sizeof config->layers);
+
+	/* Do not recycle the entries of actions which are still in progress. */
+	if (!busy) {
+		config->nr_descriptors = original->nr_descriptors;
+		config->nr_macros = original->nr_macros;
+		config->nr_commands = original->nr_commands;
+	}
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
-		memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+		reset_config(kbd);
 		return 0;
 	} else {
 		return config_add_entry(&kbd->config, exp);
diff --git a/src/keyboard.h b/src/keyboard.h
index 47b6652..14b851f 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -79,6 +79,7 @@ struct keyboard {
 		size_t queue_sz;
 
 		const struct chord *match;
+		struct chord match_copy;
 		int match_layer;
 
 		uint8_t start_code;
-- 
2.43.0


From b8158f726f41f55b020eb5baf5f68089f0850368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 27/69] fix: refused bindings must not use up space

---
 src/config.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index c336c85..3209e57 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1017,6 +1017,7 @@ int config_add_entry(struct config *config, const char *exp)
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
+	size_t nr_descriptors, nr_macros, nr_commands;
 	int idx;
 
 	static char buf[MAX_EXP_LEN];
@@ -1054,9 +1055,20 @@ int config_add_entry(struct config *config, const char *exp)
 
 	layer = &config->layers[idx];
 
-	if (parse_descriptor(descstr, &d, config) < 0)
+	nr_descriptors = config->nr_descriptors;
+	nr_macros = config->nr_macros;
+	nr_commands = config->nr_commands;
+
+	if (parse_descriptor(descstr, &d, config) < 0 ||
+	    set_layer_entry(config, layer, keyname, &d) < 0) {
+		/* Refused bindings must not use up space. */
+		config->nr_descriptors = nr_descriptors;
+		config->nr_macros = nr_macros;
+		config->nr_commands = nr_commands;
+
 		return -1;
+	}
 
-	return set_layer_entry(config, layer, keyname, &d);
+	return 0;
 }
 
-- 
2.43.0


From a45c0c838896db6bb4d6930c31889cb002bb6014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 28/69] fix: chords struck behind a timed key must be released
 with their own keys

---
 src/keyboard.c | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 69004e4..f3f9b3d 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -935,6 +935,31 @@ static int abort_chord(struct keyboard *kbd, long time)
 	return resolve_chord(kbd, time);
 }
 
+static int chord_pending(struct keyboard *kbd)
+{
+	return kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
+	       kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT;
+}
+
+static int is_queued_press(const struct key_event *queue, size_t n, uint8_t code)
+{
+	while (n--)
+		if (queue[n].code == code)
+			return queue[n].pressed;
+
+	return 0;
+}
+
+/* Returns 1 if the key was struck on its own (i.e not as part of an active chord). */
+static int is_struck(struct keyboard *kbd, uint8_t code)
+{
+	return cache_get(kbd, code) ||
+	       (chord_pending(kbd) &&
+		is_queued_press(kbd->chord.queue, kbd->chord.queue_sz, code)) ||
+	       (kbd->pending_key.code &&
+		is_queued_press(kbd->pending_key.queue, kbd->pending_key.queue_sz, code));
+}
+
 static int handle_chord(struct keyboard *kbd,
 			uint8_t code, int pressed, long time)
 {
@@ -942,12 +967,12 @@ static int handle_chord(struct keyboard *kbd,
 	const long interkey_timeout = kbd->config.chord_interkey_timeout;
 	const long hold_timeout = kbd->config.chord_hold_timeout;
 
-	if (code && !pressed) {
+	if (code && !pressed && !is_struck(kbd, code)) {
 		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {
 			struct active_chord *ac = &kbd->active_chords[i];
 			uint8_t chord_code = KEYD_CHORD_1 + i;
 
-			if (ac->active) {
+			if (ac->active == 1) {
 				size_t i;
 				int nremaining = 0;
 				int found = 0;
@@ -964,7 +989,8 @@ static int handle_chord(struct keyboard *kbd,
 
 				if (found) {
 					if (nremaining == 0) {
-						ac->active = 0;
+						/* In use until the release has been processed. */
+						ac->active = 2;
 						process_event(kbd, chord_code, 0, time);
 					}
 
@@ -1075,12 +1101,6 @@ static int handle_chord(struct keyboard *kbd,
 	return 0;
 }
 
-static int chord_pending(struct keyboard *kbd)
-{
-	return kbd->chord.state == CHORD_PENDING_DISAMBIGUATION ||
-	       kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT;
-}
-
 int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long time)
 {
 	if (!kbd->pending_key.code)
@@ -1247,6 +1267,10 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 				goto exit;
 		} else {
 			struct cache_entry *ce;
+
+			if (code >= KEYD_CHORD_1 && code <= KEYD_CHORD_MAX)
+				kbd->active_chords[code - KEYD_CHORD_1].active = 0;
+
 			if (!(ce = cache_get(kbd, code)))
 				goto exit;
 
-- 
2.43.0


From 94428acad2a3c7378a6e7aca8ee30d62efc8e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 29/69] fix: a chord may contain a dot

---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 3209e57..4543d7e 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1033,7 +1033,8 @@ int config_add_entry(struct config *config, const char *exp)
 	dot = strchr(s, '.');
 	eq = *s ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!eq || dot < eq)) {
+	/* The key itself (or part of the chord) may be a dot. */
+	if (dot && dot != s && dot[-1] != '+' && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From e35f0a2e31cb5ac6543278920c7587a56a53ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 30/69] fix: a binding of the [ key is not a section heading

---
 src/ini.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ini.c b/src/ini.c
index cdae3ca..80d6154 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -105,7 +105,7 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 		switch (line[0]) {
 		case '[':
-			if (line[len-1] == ']') {
+			if (line[len-1] == ']' && line[1 + strspn(line+1, " \t")] != '=') {
 				if (n >= MAX_SECTIONS) {
 					err("line %d: max sections (%d) exceeded", ln, MAX_SECTIONS);
 					return NULL;
-- 
2.43.0


From 9d77f805772c0f27a9bc8d9e4df606cdbbda8023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 31/69] fix: unknown absolute axes must not repeat the previous
 event

---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..8704782 100644
--- a/src/device.c
+++ b/src/device.c
@@ -453,7 +453,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From b3eebf3f5059d3ea629912b8855f47c0098e474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 32/69] fix: touch and stylus buttons are not keys

---
 src/device.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device.c b/src/device.c
index 8704782..b229672 100644
--- a/src/device.c
+++ b/src/device.c
@@ -546,10 +546,10 @@ struct device_event *device_read_event(struct device *dev)
 				case BTN_9:       ev.code = KEYD_F22; break;
 
 				default:
-					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP)) {
+					if (!(ev.code >= BTN_DIGI && ev.code <= BTN_TOOL_QUADTAP))
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
-						return NULL;
-					}
+
+					return NULL;
 			}
 		}
 
-- 
2.43.0


From ca3151a4979188c12ae3edfe2ceab60c70534d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 33/69] fix: keys whose Linux codes differ from keyd's must
 keep their identity

---
 src/device.c      | 33 +++++++++++++++++++++++++++------
 src/vkbd/uinput.c |  5 ++++-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/device.c b/src/device.c
index b229672..83db3e8 100644
--- a/src/device.c
+++ b/src/device.c
@@ -467,7 +467,33 @@ struct device_event *device_read_event(struct device *dev)
 		if (ev.value == 2)
 			return NULL;
 
-		if (ev.code >= 256) {
+		if (ev.code < 256) {
+			switch (ev.code) {
+				case KEY_PROG1: ev.code = KEYD_F21; break;
+				case KEY_PROG2: ev.code = KEYD_F22; break;
+				case KEY_PROG3: ev.code = KEYD_F23; break;
+				case KEY_PROG4: ev.code = KEYD_F24; break;
+
+				/* keyd uses these codes for keys of its own. */
+				case KEYD_ZOOM:
+				case KEYD_VOICECOMMAND:
+				case KEYD_NOOP:
+				case KEYD_EXTERNAL_MOUSE_BUTTON:
+				case KEYD_CHORD_1:
+				case KEYD_CHORD_2:
+				case KEYD_CHORD_MAX:
+				case KEYD_LEFT_MOUSE:
+				case KEYD_MIDDLE_MOUSE:
+				case KEYD_RIGHT_MOUSE:
+				case KEYD_MOUSE_1:
+				case KEYD_MOUSE_2:
+				case KEYD_MOUSE_BACK:
+				case KEYD_MOUSE_FORWARD:
+				case KEYD_FN:
+					keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
+					return NULL;
+			}
+		} else {
 			switch (ev.code) {
 				/*
                                  * Shifted fn keys on laptops which support it.
@@ -490,11 +516,6 @@ struct device_event *device_read_event(struct device *dev)
 				case KEY_FN_F11: ev.code = KEYD_F23; break;
 				case KEY_FN_F12: ev.code = KEYD_F24; break;
 
-				case KEY_PROG1: ev.code = KEYD_F21; break;
-				case KEY_PROG2: ev.code = KEYD_F22; break;
-				case KEY_PROG3: ev.code = KEYD_F23; break;
-				case KEY_PROG4: ev.code = KEYD_F24; break;
-
 				/* Thinkpad fn shifted f9-f11 */
 				case KEY_NOTIFICATION_CENTER:  ev.code = KEYD_F21; break;
 				case KEY_PICKUP_PHONE:         ev.code = KEYD_F22; break;
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..725ac2f 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -79,7 +79,9 @@ static int create_virtual_keyboard(const char *name)
 			exit(-1);
 		}
 
-	if (ioctl(fd, UI_SET_KEYBIT, KEY_ZOOM)) {
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_ZOOM) ||
+	    ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND) ||
+	    ioctl(fd, UI_SET_KEYBIT, KEY_FN)) {
 		perror("ioctl set_keybit");
 		exit(-1);
 	}
@@ -181,6 +183,7 @@ static void write_key_event(const struct vkbd *vkbd, uint8_t code, int state)
 		case KEYD_MOUSE_FORWARD: ev.code = BTN_FORWARD; break;
 		case KEYD_ZOOM:		 ev.code = KEY_ZOOM; is_btn = 0; break;
 		case KEYD_VOICECOMMAND: ev.code = KEY_VOICECOMMAND; is_btn = 0; break;
+		case KEYD_FN:		 ev.code = KEY_FN; is_btn = 0; break;
 		default:
 			ev.code = code;
 			is_btn = 0;
-- 
2.43.0


From 708b2e19a58c715cbde57396b839861d721f2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 34/69] fix: every keyboard keeps its own deadline

Unrelated events (from other devices, clients, or the same device) could
clear, postpone or misdirect the pending timeout.
---
 src/daemon.c   | 65 ++++++++++++++++++++++++++++++++++----------------
 src/evloop.c   | 17 +++++++++----
 src/keyboard.h |  3 +++
 3 files changed, 59 insertions(+), 26 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e4524ea..94d1819 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,7 +460,14 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
+static void process_event(struct keyboard *kbd, const struct key_event *kev)
+{
+	long timeout = kbd_process_events(kbd, kev, 1);
+
+	kbd->deadline = timeout > 0 ? kev->timestamp + timeout : 0;
+}
+
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -468,32 +475,48 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	process_event(kbd, &kev);
 
 	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	process_event(kbd, &kev);
 }
 
-static int event_handler(struct event *ev)
+/* Returns the time until the next deadline of any keyboard (0 if there is none). */
+static int next_timeout(long now)
 {
-	static long last_time = 0;
-	static int timeout = 0;
-	struct key_event kev = {0};
+	struct config_ent *ent;
+	long timeout = 0;
+
+	for (ent = configs; ent; ent = ent->next) {
+		long remaining;
 
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
+		if (!ent->kbd->deadline)
+			continue;
 
-	timeout = timeout < 0 ? 0 : timeout;
+		remaining = ent->kbd->deadline - now;
+		if (remaining < 1)
+			remaining = 1;
+
+		if (!timeout || remaining < timeout)
+			timeout = remaining;
+	}
+
+	return timeout;
+}
+
+static int event_handler(struct event *ev)
+{
+	struct config_ent *ent;
+	struct key_event kev = {0};
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
 		kev.code = 0;
 		kev.timestamp = ev->timestamp;
 
-		timeout = kbd_process_events(active_kbd, &kev, 1);
+		for (ent = configs; ent; ent = ent->next)
+			if (ent->kbd->deadline && ent->kbd->deadline <= ev->timestamp)
+				process_event(ent->kbd, &kev);
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -508,7 +531,7 @@ static int event_handler(struct event *ev)
 				kev.pressed = ev->devev->pressed;
 				kev.timestamp = ev->timestamp;
 
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_event(kbd, &kev);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -538,16 +561,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -555,7 +578,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -593,7 +616,7 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
-	return timeout;
+	return next_timeout(ev->timestamp);
 }
 
 int run_daemon(int argc, char *argv[])
diff --git a/src/evloop.c b/src/evloop.c
index b246b66..4ab8374 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -47,18 +47,20 @@ int evloop(int (*event_handler) (struct event *ev))
 	monfd = devmon_create();
 	device_table_sz = device_scan(device_table);
 
+	ev.timestamp = get_time_ms();
+
 	for (i = 0; i < device_table_sz; i++) {
 		ev.type = EV_DEV_ADD;
 		ev.dev = &device_table[i];
 
-		event_handler(&ev);
+		timeout = event_handler(&ev);
 	}
 
 	while (1) {
 		int removed = 0;
 
-		long start_time;
-		int elapsed;
+		long start_time, remaining;
+		long elapsed;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
@@ -73,8 +75,13 @@ int evloop(int (*event_handler) (struct event *ev))
 			pfds[i+device_table_sz+1].events = POLLIN | POLLERR;
 		}
 
-		start_time = get_time_ms();
-		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);
+		/* Timeouts are relative to the last event, which may have taken time to handle. */
+		start_time = ev.timestamp;
+		remaining = timeout - (get_time_ms() - start_time);
+		if (remaining < 0)
+			remaining = 0;
+
+		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? remaining : -1);
 		ev.timestamp = get_time_ms();
 		elapsed = ev.timestamp - start_time;
 
diff --git a/src/keyboard.h b/src/keyboard.h
index 14b851f..0e0f6af 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -133,6 +133,9 @@ struct keyboard {
 		int sensitivity; /* Mouse units per scroll unit (higher == slower scrolling). */
 		int active;
 	} scroll;
+
+	/* Time at which the keyboard needs to be woken up (0 if it doesn't). Reserved for the user. */
+	long deadline;
 };
 
 struct keyboard *new_keyboard(struct config *config, const struct output *output);
-- 
2.43.0


From 991a9521ea9325386d283ef99101943faaf07129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 35/69] fix: only keys which are held belong to the panic
 sequence

LED and wheel events, and keys of devices which are gone, counted too.
---
 src/device.c |  1 +
 src/device.h |  3 +++
 src/evloop.c | 29 ++++++++++++++++++++++-------
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/device.c b/src/device.c
index 83db3e8..9d945b0 100644
--- a/src/device.c
+++ b/src/device.c
@@ -185,6 +185,7 @@ static int device_init(const char *path, struct device *dev)
 		dev->capabilities = capabilities;
 		dev->data = NULL;
 		dev->grabbed = 0;
+		dev->panic_keys = 0;
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
diff --git a/src/device.h b/src/device.h
index 0a12699..97a2fca 100644
--- a/src/device.h
+++ b/src/device.h
@@ -29,6 +29,9 @@ struct device {
 	char name[64];
 	char path[256];
 
+	/* Keys of the panic sequence which are held. */
+	uint8_t panic_keys;
+
 	/* Internal. */
 	uint32_t _maxx;
 	uint32_t _maxy;
diff --git a/src/evloop.c b/src/evloop.c
index 4ab8374..b58d811 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -8,22 +8,35 @@ static size_t nr_aux_fds = 0;
 struct device device_table[MAX_DEVICES];
 size_t device_table_sz;
 
-static void panic_check(uint8_t code, uint8_t pressed)
+static void panic_check(struct device *dev, uint8_t code, uint8_t pressed)
 {
-	static uint8_t enter, backspace, escape;
+	size_t i;
+	uint8_t key = 0;
+	uint8_t held = 0;
+
 	switch (code) {
 	case KEYD_ENTER:
-		enter = pressed;
+		key = 0x1;
 		break;
 	case KEYD_BACKSPACE:
-		backspace = pressed;
+		key = 0x2;
 		break;
 	case KEYD_ESC:
-		escape = pressed;
+		key = 0x4;
 		break;
+	default:
+		return;
 	}
 
-	if (backspace && enter && escape)
+	if (pressed)
+		dev->panic_keys |= key;
+	else
+		dev->panic_keys &= ~key;
+
+	for (i = 0; i < device_table_sz; i++)
+		held |= device_table[i].panic_keys;
+
+	if (held == 0x7)
 		die("panic sequence detected");
 }
 
@@ -106,11 +119,13 @@ int evloop(int (*event_handler) (struct event *ev))
 						timeout = event_handler(&ev);
 
 						device_table[i].fd = -1;
+						device_table[i].panic_keys = 0;
 						removed = 1;
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY)
+							panic_check(&device_table[i], devev->code, devev->pressed);
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From a7665060665922e02f0aebc77608fd6104bd3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 36/69] fix: absolute pointer positions must be scaled from the
 range of the device

---
 src/device.c      | 20 ++++++++++++++++----
 src/device.h      | 13 ++++++++-----
 src/vkbd/uinput.c |  4 ++--
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/device.c b/src/device.c
index 9d945b0..bcb894e 100644
--- a/src/device.c
+++ b/src/device.c
@@ -377,6 +377,18 @@ int device_ungrab(struct device *dev)
 	}
 }
 
+/* Map a position within [min,max] to [0,1024]. */
+static int scale_abs(int32_t value, int32_t min, int32_t max)
+{
+	if (value <= min || max <= min)
+		return 0;
+
+	if (value >= max)
+		return 1024;
+
+	return (((int64_t)value - min) * 1024) / ((int64_t)max - min);
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -442,14 +454,14 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
-			devev.y = 0;
+			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
+			devev.y = -1;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
-			devev.x = 0;
+			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
+			devev.x = -1;
 
 			break;
 		default:
diff --git a/src/device.h b/src/device.h
index 97a2fca..8edd137 100644
--- a/src/device.h
+++ b/src/device.h
@@ -33,10 +33,10 @@ struct device {
 	uint8_t panic_keys;
 
 	/* Internal. */
-	uint32_t _maxx;
-	uint32_t _maxy;
-	uint32_t _minx;
-	uint32_t _miny;
+	int32_t _maxx;
+	int32_t _maxy;
+	int32_t _minx;
+	int32_t _miny;
 
 	/* Reserved for the user. */
 	void *data;
@@ -48,7 +48,10 @@ struct device_event {
 		DEV_LED,
 
 		DEV_MOUSE_MOVE,
-		/* All absolute values are relative to a resolution of 1024x1024. */
+		/*
+		 * All absolute values are relative to a resolution of 1024x1024,
+		 * -1 for an axis on which there was no movement.
+		 */
 		DEV_MOUSE_MOVE_ABS,
 		DEV_MOUSE_SCROLL,
 
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index 725ac2f..8ee760d 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -305,7 +305,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	if (x >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -316,7 +316,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From f2c2e98a042d9d0db363e0f196a54df9b56a5f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 37/69] fix: the active keyboard must not outlive a reload

---
 src/daemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/daemon.c b/src/daemon.c
index 94d1819..0d5c075 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -284,6 +284,7 @@ static void reload()
 	size_t i;
 
 	free_configs();
+	active_kbd = NULL;
 	load_configs();
 
 	for (i = 0; i < device_table_sz; i++)
-- 
2.43.0


From 59fc48d5333b718ca9ed32f8e4361250a5f2509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 38/69] fix: a listener needs the current layers before the
 first key event too

---
 src/daemon.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 0d5c075..67f8156 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -75,6 +75,7 @@ static void send_key(uint8_t code, uint8_t state)
 
 static void add_listener(int con)
 {
+	struct keyboard *kbd;
 	struct timeval tv;
 
 	/*
@@ -94,13 +95,17 @@ static void add_listener(int con)
 
 	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
 
-	if (active_kbd) {
+	kbd = active_kbd;
+	if (!kbd && configs)
+		kbd = configs->kbd;
+
+	if (kbd) {
 		size_t i;
-		struct config *config = &active_kbd->config;
+		struct config *config = &kbd->config;
 		struct layer *layout = &config->layers[0];
 
 		for (i = 1; i < config->nr_layers; i++)
-			if (active_kbd->layer_state[i].active) {
+			if (kbd->layer_state[i].active) {
 				struct layer *layer = &config->layers[i];
 
 				if (layer->type == LT_LAYOUT) {
@@ -109,10 +114,11 @@ static void add_listener(int con)
 				}
 			}
 
-		dprintf(con, "/%s\n", layout->name);
+		if (dprintf(con, "/%s\n", layout->name) < 0)
+			goto fail;
 
 		for (i = 1; i < config->nr_layers; i++) {
-			if (active_kbd->layer_state[i].active) {
+			if (kbd->layer_state[i].active) {
 				ssize_t ret;
 				struct layer *layer = &config->layers[i];
 
-- 
2.43.0


From aecbf3234e3ca5330249daab91ce1277d1b76e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 39/69] fix: report a layer as inactive only when nothing keeps
 it active

---
 src/keyboard.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index f3f9b3d..e45f638 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -253,7 +253,9 @@ static void deactivate_layer(struct keyboard *kbd, int idx)
 	assert(kbd->layer_state[idx].active > 0);
 	kbd->layer_state[idx].active--;
 
-	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);
+	/* The layer may still be held active by another key. */
+	if (!kbd->layer_state[idx].active)
+		kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);
 }
 
 /*
@@ -272,7 +274,8 @@ static void activate_layer(struct keyboard *kbd, uint8_t code, int idx)
 	if ((ce = cache_get(kbd, code)))
 		ce->layer = idx;
 
-	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);
+	if (kbd->layer_state[idx].active == 1)
+		kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);
 }
 
 /* Returns:
-- 
2.43.0


From 276fb6bb98b8e169ac0ca2b915ddcfa2ea487096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 40/69] fix: listeners must hear of the layers a reload
 deactivates

---
 src/daemon.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index 67f8156..d77ba57 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -285,13 +285,44 @@ static void manage_device(struct device *dev)
 	}
 }
 
+/* Tell listeners about the effects of a reload: every layer is gone and only the default layout remains. */
+static void report_reload(int loaded)
+{
+	struct config_ent *ent;
+	size_t i;
+
+	for (ent = configs; ent; ent = ent->next) {
+		struct keyboard *kbd = ent->kbd;
+		struct layer *layout = &kbd->config.layers[0];
+
+		for (i = 1; i < kbd->config.nr_layers; i++) {
+			struct layer *layer = &kbd->config.layers[i];
+
+			if (!kbd->layer_state[i].active)
+				continue;
+
+			if (layer->type == LT_LAYOUT) {
+				layout = layer;
+			} else if (!loaded) {
+				kbd->layer_state[i].active = 0;
+				on_layer_change(kbd, layer, 0);
+			}
+		}
+
+		if (loaded)
+			on_layer_change(kbd, layout, 1);
+	}
+}
+
 static void reload()
 {
 	size_t i;
 
+	report_reload(0);
 	free_configs();
 	active_kbd = NULL;
 	load_configs();
+	report_reload(1);
 
 	for (i = 0; i < device_table_sz; i++)
 		manage_device(&device_table[i]);
-- 
2.43.0


From 82f1922b2408f2748c663a72d064cd18f294f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 41/69] fix: a client must not be able to terminate or block
 the daemon

---
 src/daemon.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index d77ba57..bdcdfc2 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -10,6 +10,9 @@ static int ipcfd = -1;
 static struct vkbd *vkbd = NULL;
 static struct config_ent *configs;
 
+/* The time a client may take to send a request or to read the answer. */
+#define CLIENT_TIMEOUT_US 200000
+
 static uint8_t keystate[256];
 
 static int listeners[32];
@@ -73,6 +76,13 @@ static void send_key(uint8_t code, uint8_t state)
 	}
 }
 
+/* The client may be gone. */
+static void reply(int con, const void *buf, size_t sz)
+{
+	if (send(con, buf, sz, MSG_NOSIGNAL) != (ssize_t)sz)
+		keyd_log("IPC: y{WARNING} failed to answer a client\n");
+}
+
 static void add_listener(int con)
 {
 	struct keyboard *kbd;
@@ -87,7 +97,7 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		reply(con, s, sizeof s);
 
 		close(con);
 		return;
@@ -337,7 +347,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
+	reply(con, &msg, sizeof msg);
 	close(con);
 }
 
@@ -351,7 +361,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
+	reply(con, &msg, sizeof msg);
 	close(con);
 
 	va_end(args);
@@ -425,8 +435,17 @@ static int input(char *buf, size_t sz, uint32_t timeout)
 static void handle_client(int con)
 {
 	struct ipc_message msg;
+	struct timeval tv = { .tv_usec = CLIENT_TIMEOUT_US };
 
-	xread(con, &msg, sizeof msg);
+	/* Clients must not be able to block the main event loop. */
+	setsockopt(con, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+
+	if (recv(con, &msg, sizeof msg, MSG_WAITALL) != sizeof msg) {
+		keyd_log("IPC: y{WARNING} incomplete request\n");
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -642,12 +661,10 @@ static int event_handler(struct event *ev)
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
 			int con = accept(ipcfd, NULL, 0);
-			if (con < 0) {
+			if (con < 0)
 				perror("accept");
-				exit(-1);
-			}
-
-			handle_client(con);
+			else
+				handle_client(con);
 		}
 		break;
 	default:
-- 
2.43.0


From 3d5a9e350026b8b5db49ec0e3a969e309c152852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 42/69] fix: listeners which have gone must not use up the
 listener slots

---
 src/daemon.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index bdcdfc2..09c8777 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -83,6 +83,24 @@ static void reply(int con, const void *buf, size_t sz)
 		keyd_log("IPC: y{WARNING} failed to answer a client\n");
 }
 
+/* Remove listeners which have disconnected. */
+static void prune_listeners()
+{
+	size_t i;
+	size_t n = 0;
+
+	for (i = 0; i < nr_listeners; i++) {
+		struct pollfd pfd = { .fd = listeners[i], .events = 0 };
+
+		if (poll(&pfd, 1, 0) > 0 && pfd.revents & (POLLHUP | POLLERR))
+			close(listeners[i]);
+		else
+			listeners[n++] = listeners[i];
+	}
+
+	nr_listeners = n;
+}
+
 static void add_listener(int con)
 {
 	struct keyboard *kbd;
@@ -95,6 +113,9 @@ static void add_listener(int con)
 	tv.tv_usec = 50000;
 	tv.tv_sec = 0;
 
+	if (nr_listeners == ARRAY_SIZE(listeners))
+		prune_listeners();
+
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
 		reply(con, s, sizeof s);
-- 
2.43.0


From 844f266157cfd99ad1ab4dd23039e3a196f17fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 43/69] fix: setting an LED of a removed device must not
 terminate keyd

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index bcb894e..bcbf4fe 100644
--- a/src/device.c
+++ b/src/device.c
@@ -617,5 +617,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* The device may have been removed. */
+	if (write(dev->fd, &ev, sizeof ev) != sizeof ev)
+		dbg("failed to set led of %s", dev->path);
 }
-- 
2.43.0


From ae412270c386eaa1c31e1bfc537f3fcc9bf58f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 44/69] fix: close the descriptors of removed and unusable
 devices

---
 src/device.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/device.c b/src/device.c
index bcbf4fe..8a1419a 100644
--- a/src/device.c
+++ b/src/device.c
@@ -136,14 +136,14 @@ static int device_init(const char *path, struct device *dev)
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
-		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
-		return -1;
+		keyd_log("ERROR: could not fetch device name of %s\n", path);
+		goto fail;
 	}
 
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_minx = absinfo.minimum;
@@ -151,7 +151,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
-			return -1;
+			goto fail;
 		}
 
 		dev->_miny = absinfo.minimum;
@@ -165,7 +165,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
-			return -1;
+			goto fail;
 		}
 
 		strncpy(dev->path, path, sizeof(dev->path)-1);
@@ -189,11 +189,10 @@ static int device_init(const char *path, struct device *dev)
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
-	} else {
-		close(fd);
-		return -1;
 	}
 
+fail:
+	close(fd);
 	return -1;
 }
 
@@ -405,6 +404,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From ff3a45b903f384e5286d8e1fc117edc20a57bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 45/69] fix: more devices than keyd can handle must not
 terminate it

---
 src/device.c | 10 ++++++++--
 src/evloop.c |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/device.c b/src/device.c
index 8a1419a..32a5e5d 100644
--- a/src/device.c
+++ b/src/device.c
@@ -226,8 +226,14 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
-			struct device_worker *w = &workers[n++];
+			struct device_worker *w;
+
+			if (n >= MAX_DEVICES) {
+				keyd_log("DEVICE: y{WARNING} too many devices, ignoring %s\n", ent->d_name);
+				continue;
+			}
+
+			w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
 			pthread_create(&w->tid, NULL, device_scan_worker, w);
diff --git a/src/evloop.c b/src/evloop.c
index b58d811..3474250 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -153,7 +153,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz >= MAX_DEVICES) {
+					keyd_log("DEVICE: y{WARNING} too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From 13e1bc8c9e7dbdefc3a931cf111287da86c0febc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 46/69] fix: the id of a device with a long name must be
 reproducible

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 32a5e5d..ae7b3fb 100644
--- a/src/device.c
+++ b/src/device.c
@@ -135,7 +135,9 @@ static int device_init(const char *path, struct device *dev)
 
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
-	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
+	/* Long names are truncated without being terminated. */
+	memset(dev->name, 0, sizeof dev->name);
+	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)-1), dev->name) == -1) {
 		keyd_log("ERROR: could not fetch device name of %s\n", path);
 		goto fail;
 	}
-- 
2.43.0


From 79eb862534465fe1c125fbc07a110b9fc7c79ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 47/69] fix: a client must not hang when the connection is
 closed

---
 src/util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util.c b/src/util.c
index 8e35ec5..ee7481a 100644
--- a/src/util.c
+++ b/src/util.c
@@ -26,6 +26,10 @@ void xread(int fd, void *buf, size_t sz)
 			perror("read");
 			exit(-1);
 		}
+		if (n == 0) {
+			fprintf(stderr, "read: unexpected end of input\n");
+			exit(-1);
+		}
 		nrd += n;
 	}
 }
-- 
2.43.0


From 3be37e86c93d01d0fa23d44e704d186246f0c28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 48/69] fix: the layer indicator must include keyboards plugged
 in later

---
 src/daemon.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 09c8777..3a9c795 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -169,6 +169,17 @@ fail:
 	return;
 }
 
+static int has_active_layers(const struct keyboard *kbd)
+{
+	size_t i;
+
+	for (i = 1; i < kbd->config.nr_layers; i++)
+		if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active)
+			return 1;
+
+	return 0;
+}
+
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
@@ -179,13 +190,7 @@ static void on_layer_change(const struct keyboard *kbd, const struct layer *laye
 	size_t n = 0;
 
 	if (kbd->config.layer_indicator) {
-		int active_layers = 0;
-
-		for (i = 1; i < kbd->config.nr_layers; i++)
-			if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active) {
-				active_layers = 1;
-				break;
-			}
+		int active_layers = has_active_layers(kbd);
 
 		for (i = 0; i < device_table_sz; i++)
 			if (device_table[i].data == kbd)
@@ -309,6 +314,9 @@ static void manage_device(struct device *dev)
 			  dev->id, ent->config.path, dev->name);
 
 		dev->data = ent->kbd;
+
+		if (ent->config.layer_indicator && has_active_layers(ent->kbd))
+			device_set_led(dev, 1, 1);
 	} else {
 		dev->data = NULL;
 		device_ungrab(dev);
-- 
2.43.0


From 99701b0be7017d39fb050a34f95496fc03e484a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 49/69] fix: keys held on a keyboard which is unplugged must be
 released

---
 src/device.c |  2 +-
 src/device.h |  4 ++--
 src/evloop.c | 65 ++++++++++++++++++++++++++++++----------------------
 3 files changed, 40 insertions(+), 31 deletions(-)

diff --git a/src/device.c b/src/device.c
index ae7b3fb..6040723 100644
--- a/src/device.c
+++ b/src/device.c
@@ -187,7 +187,7 @@ static int device_init(const char *path, struct device *dev)
 		dev->capabilities = capabilities;
 		dev->data = NULL;
 		dev->grabbed = 0;
-		dev->panic_keys = 0;
+		memset(dev->keystate, 0, sizeof dev->keystate);
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
diff --git a/src/device.h b/src/device.h
index 8edd137..0a0c2be 100644
--- a/src/device.h
+++ b/src/device.h
@@ -29,8 +29,8 @@ struct device {
 	char name[64];
 	char path[256];
 
-	/* Keys of the panic sequence which are held. */
-	uint8_t panic_keys;
+	/* Keys which are held. */
+	uint8_t keystate[256];
 
 	/* Internal. */
 	int32_t _maxx;
diff --git a/src/evloop.c b/src/evloop.c
index 3474250..683e2d2 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -8,35 +8,20 @@ static size_t nr_aux_fds = 0;
 struct device device_table[MAX_DEVICES];
 size_t device_table_sz;
 
-static void panic_check(struct device *dev, uint8_t code, uint8_t pressed)
+static int is_held(uint8_t code)
 {
 	size_t i;
-	uint8_t key = 0;
-	uint8_t held = 0;
-
-	switch (code) {
-	case KEYD_ENTER:
-		key = 0x1;
-		break;
-	case KEYD_BACKSPACE:
-		key = 0x2;
-		break;
-	case KEYD_ESC:
-		key = 0x4;
-		break;
-	default:
-		return;
-	}
-
-	if (pressed)
-		dev->panic_keys |= key;
-	else
-		dev->panic_keys &= ~key;
 
 	for (i = 0; i < device_table_sz; i++)
-		held |= device_table[i].panic_keys;
+		if (device_table[i].keystate[code])
+			return 1;
+
+	return 0;
+}
 
-	if (held == 0x7)
+static void panic_check()
+{
+	if (is_held(KEYD_ENTER) && is_held(KEYD_BACKSPACE) && is_held(KEYD_ESC))
 		die("panic sequence detected");
 }
 
@@ -47,6 +32,27 @@ static long get_time_ms()
 	return ts.tv_sec * 1E3 + ts.tv_nsec / 1E6;
 }
 
+/* Release the keys which are held on a device that has gone. */
+static int release_keys(struct event *ev, int (*event_handler) (struct event *ev), int timeout)
+{
+	size_t i;
+	struct device_event devev = { .type = DEV_KEY };
+
+	for (i = 0; i < ARRAY_SIZE(ev->dev->keystate); i++) {
+		if (!ev->dev->keystate[i])
+			continue;
+
+		ev->dev->keystate[i] = 0;
+		devev.code = i;
+
+		ev->type = EV_DEV_EVENT;
+		ev->devev = &devev;
+		timeout = event_handler(ev);
+	}
+
+	return timeout;
+}
+
 int evloop(int (*event_handler) (struct event *ev))
 {
 	size_t i;
@@ -113,19 +119,22 @@ int evloop(int (*event_handler) (struct event *ev))
 
 				while ((devev = device_read_event(&device_table[i]))) {
 					if (devev->type == DEV_REMOVED) {
-						ev.type = EV_DEV_REMOVE;
 						ev.dev = &device_table[i];
 
+						timeout = release_keys(&ev, event_handler, timeout);
+
+						ev.type = EV_DEV_REMOVE;
 						timeout = event_handler(&ev);
 
 						device_table[i].fd = -1;
-						device_table[i].panic_keys = 0;
 						removed = 1;
 						break;
 					} else {
 						//Handle device event
-						if (devev->type == DEV_KEY)
-							panic_check(&device_table[i], devev->code, devev->pressed);
+						if (devev->type == DEV_KEY) {
+							device_table[i].keystate[devev->code] = devev->pressed;
+							panic_check();
+						}
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From dbbe12120650ab924eaa7f19b8cbd277b7b1a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 50/69] fix: commands must not inherit the control socket and
 its lock

A command which is still running kept the lock (and client connections)
after keyd itself had gone, so that keyd could not be started again.
---
 src/daemon.c | 6 ++++--
 src/ipc.c    | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 3a9c795..f890678 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -690,10 +690,12 @@ static int event_handler(struct event *ev)
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
 			int con = accept(ipcfd, NULL, 0);
-			if (con < 0)
+			if (con < 0) {
 				perror("accept");
-			else
+			} else {
+				fcntl(con, F_SETFD, FD_CLOEXEC);
 				handle_client(con);
+			}
 		}
 		break;
 	default:
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..53d9b53 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -47,7 +47,7 @@ int ipc_connect()
 int ipc_create_server()
 {
 	char lockpath[PATH_MAX];
-	int sd = socket(AF_UNIX, SOCK_STREAM, 0);
+	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
 	struct sockaddr_un addr = {0};
 
@@ -60,7 +60,7 @@ int ipc_create_server()
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
-- 
2.43.0


From 397c7d4482d453fbad0406dd5ed007f338f4133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 51/69] fix: a command which cannot be run must not become a
 second keyd

---
 src/keyboard.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index e45f638..670268b 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -389,13 +389,13 @@ static void execute_command(const char *cmd)
 		return;
 	}
 	if (fork())
-		exit(0);
+		_exit(0);
 
 	fd = open("/dev/null", O_RDWR);
 
 	if (fd < 0) {
 		perror("open");
-		exit(-1);
+		_exit(-1);
 	}
 
 	close(0);
@@ -407,6 +407,7 @@ static void execute_command(const char *cmd)
 	dup2(fd, 2);
 
 	execl("/bin/sh", "/bin/sh", "-c", cmd, NULL);
+	_exit(127);
 }
 
 static void clear_oneshot(struct keyboard *kbd)
-- 
2.43.0


From 8fea6a37881a0d4dabe93fdafac6497a6fae1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 52/69] fix: a read error must end keyd input and do

The result was unsigned, so that an error counted as -1 bytes read.
---
 src/keyd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..3dca2dd 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -112,7 +112,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
-- 
2.43.0


From ba0c3168163f8bf27f39fd23bc7b7edf71b53012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 53/69] fix: an expression which is too long must not abort
 keyd bind

---
 src/keyd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyd.c b/src/keyd.c
index 3dca2dd..a406511 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -10,7 +10,8 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 {
 	struct ipc_message msg;
 
-	assert(sz <= sizeof(msg.data));
+	if (sz >= sizeof(msg.data))
+		die("maximum message size exceeded");
 
 	msg.type = type;
 	msg.sz = sz;
-- 
2.43.0


From 8419eca5da1db719064fd9c9d818e48ed8703738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 54/69] fix: the reserved byte of HID reports must not be
 random

---
 src/vkbd/usb-gadget.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 6b9853b..f5dd101 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -42,7 +42,7 @@ static int create_virtual_keyboard(void)
 static void send_hid_report(const struct vkbd *vkbd)
 {
 
-	struct hid_report report;
+	struct hid_report report = {0};
 
 	for (int i = 0; i < 6; i++)
 		report.hid_code[i] = keys[i];
-- 
2.43.0


From 619a99d5bd1203bae51df6ef75397b11b05f5e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 55/69] fix: a busy USB host must not lose key reports

The device is opened with O_NONBLOCK: a report written before the host
has fetched the previous one was dropped.
---
 src/vkbd/usb-gadget.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index f5dd101..137e12f 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -8,7 +8,9 @@
 #include <stdlib.h>
 #include <stdint.h>
 #include <string.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 #include "../keys.h"
 #include "usb-gadget.h"
@@ -49,8 +51,15 @@ static void send_hid_report(const struct vkbd *vkbd)
 
 	report.hid_mods = mods;
 
-	write(vkbd->fd, &report, sizeof(report));
+	/* The host fetches reports one at a time, a lost one could leave a key stuck. */
+	while (write(vkbd->fd, &report, sizeof(report)) < 0) {
+		struct pollfd pfd = {.fd = vkbd->fd, .events = POLLOUT};
 
+		if (errno != EINTR && (errno != EAGAIN || poll(&pfd, 1, 1000) <= 0)) {
+			perror("write");
+			break;
+		}
+	}
 }
 
 static uint8_t get_modifier(int code)
-- 
2.43.0


From 7656676cd922cd06fc12ec44a9ef032420afdb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 56/69] fix: the seventh key must reach the USB host once there
 is room

A key pressed while six others were down was never reported, even when
the others were released.
---
 src/vkbd/usb-gadget.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vkbd/usb-gadget.c b/src/vkbd/usb-gadget.c
index 137e12f..d98611c 100644
--- a/src/vkbd/usb-gadget.c
+++ b/src/vkbd/usb-gadget.c
@@ -19,6 +19,9 @@ static uint8_t mods = 0;
 
 static uint8_t keys[6] = {0};
 
+/* Keys which are down, including those which do not fit into the report. */
+static uint8_t held[256] = {0};
+
 struct vkbd {
 	int fd;
 };
@@ -133,6 +136,15 @@ static void update_key_state(uint16_t code, int state)
 			}
 		}
 	}
+
+	held[code] = state && hid_code;
+
+	for (i = 0; i < 256; i++) {
+		uint8_t *slot = memchr(keys, 0, sizeof keys);
+
+		if (slot && held[i] && !memchr(keys, hid_table[i], sizeof keys))
+			*slot = hid_table[i];
+	}
 }
 
 struct vkbd *vkbd_init(const char *name)
-- 
2.43.0


From ee5df67b41289ae294aef38db234109921b2d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 57/69] fix: HID usages of the keys stop, props and kpjpcomma

---
 src/vkbd/usb-gadget.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vkbd/usb-gadget.h b/src/vkbd/usb-gadget.h
index 553fff8..f44c329 100644
--- a/src/vkbd/usb-gadget.h
+++ b/src/vkbd/usb-gadget.h
@@ -144,6 +144,9 @@ static const uint8_t hid_table[256] = {
 	[KEYD_COMPOSE] = 0x65,
 	[KEYD_AGAIN] = 0x79,
 	[KEYD_UNDO] = 0x7a,
+	[KEYD_STOP] = 0x78,
+	[KEYD_PROPS] = 0x76,
+	[KEYD_KPJPCOMMA] = 0x8c,
 	[KEYD_FRONT] = 0x77,
 	[KEYD_COPY] = 0x7c,
 	[KEYD_OPEN] = 0x74,
-- 
2.43.0


From 2495541b74c15e04b4cc876f2fbf74ca0b3862bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 58/69] fix: a faulty line in app.conf must not stop the
 application mapper

An expression before the first filter, a byte which is not UTF-8 or a NUL
character raised an exception, at the start as well as on every reload.
---
 scripts/keyd-application-mapper | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..46813b2 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -62,8 +62,9 @@ def run_or_die(cmd, msg=''):
 
 def parse_config(path):
     config = []
+    bindings = [] # expressions before the first filter belong to no window
 
-    for line in open(path):
+    for line in open(path, encoding='utf8', errors='surrogateescape'):
         line = line.strip()
 
         if line.startswith('[') and line.endswith(']'):
@@ -80,7 +81,7 @@ def parse_config(path):
             config.append((cls, title, bindings))
         elif line == '':
             continue
-        elif line.startswith('#'):
+        elif line.startswith('#') or '\0' in line:
             continue
         else:
             bindings.append(line)
-- 
2.43.0


From ce5d755b62f3c3f1e8a8d1d687d80d346c6c2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 59/69] fix: the application mapper must survive app.conf being
 replaced

An editor may remove the file for a moment while saving it; a focus change
at that time terminated the mapper.
---
 scripts/keyd-application-mapper | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 46813b2..e9db78d 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -538,12 +538,15 @@ def on_window_change(cls, title):
     cls = normalize_class(cls)
     title = normalize_title(title)
 
-    mtime = os.path.getmtime(CONFIG_PATH)
-
-    if mtime != last_mtime:
-        print(CONFIG_PATH + ': Updated, reloading config...')
-        config = parse_config(CONFIG_PATH)
-        last_mtime = mtime
+    try:
+        mtime = os.path.getmtime(CONFIG_PATH)
+
+        if mtime != last_mtime:
+            print(CONFIG_PATH + ': Updated, reloading config...')
+            config = parse_config(CONFIG_PATH)
+            last_mtime = mtime
+    except OSError as e:
+        print(f'{e}, keeping the current config')
 
     if args.verbose:
         print(f'Active window: {cls}|{title}')
-- 
2.43.0


From cc80382151179f7c0abd7db7813d740830d4b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 60/69] fix: the application mapper must not lag behind or spin
 on gnome

Of several lines read at once all but the first stayed in the buffer until the
next focus change, and when gnome-shell closed the pipe the mapper ran keyd in
a busy loop. A tab in a title made the window unknown.
---
 scripts/keyd-application-mapper | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index e9db78d..c8094d6 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -444,17 +444,19 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Unbuffered, since lines in a buffer are invisible to select, and writable,
+        # since a fifo without a writer would be readable (EOF) all the time.
+        fh = open(self.fifo_path, 'r+b', buffering=0)
         last_cls = ''
         last_title = ''
 
-        for line in new_interruptible_generator(fh.fileno(), fh.readline, None):
+        for line in new_interruptible_generator(fh.fileno(), lambda: fh.readline().decode('utf8', 'replace'), None):
             if line == None:
                 self.on_window_change(last_cls, last_title)
                 continue
 
             try:
-                (cls, title) = line.strip('\n').split('\t')
+                (cls, title) = line.rstrip('\n').split('\t', 1)
                 last_cls = cls
                 last_title = title
             except:
-- 
2.43.0


From b8306cdd5ca35e7c23a4ce43ebbf66db527e8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 61/69] fix: wayland messages may arrive in pieces

recv() returns what has arrived, the rest of the message was then taken for the
next one. A title which is not UTF-8 terminated the mapper.
---
 scripts/keyd-application-mapper | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index c8094d6..f1c9f54 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -195,18 +195,28 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    def recv_exactly(self, n):
+        data = b''
+        while len(data) < n:
+            chunk = self.sock.recv(n - len(data))
+            if not chunk:
+                raise EOFError('connection closed by the compositor')
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv_exactly(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv_exactly(size-8)
 
         return (object_id, evcode, data)
 
     def read_string(self, b):
-        return b[4:4+struct.unpack('I', b[:4])[0]-1].decode('utf8')
+        return b[4:4+struct.unpack('I', b[:4])[0]-1].decode('utf8', 'replace')
 
     # Will bind the requested interface to object id 4
     def _bind_interface(self, name):
-- 
2.43.0


From abbb8a7c4863e412ad9a5c84d042637e11a7cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 62/69] fix: windows of equal class and title are different
 windows

A change of the state of one (or closing it) made the mapper believe that the
other one, which has the focus, was not active any more.
---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index f1c9f54..05b61d3 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -269,7 +269,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -284,13 +284,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From dc5aba17746db6aee48c5e7091f315a0c15871fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 63/69] fix: a window may be maximized as well as active
 (cosmic)

Only the first of the states of a window was looked at.
---
 scripts/keyd-application-mapper | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 05b61d3..e80b571 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -312,7 +312,8 @@ class Cosmic():
                 windows[obj]['title'] = self.wl.read_string(payload)
             if event == 3:
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
+            # the array of states contains activated
+            if event == 8 and 2 in payload[4::4]:
                 self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
 
 class XMonitor():
-- 
2.43.0


From 4c639a4c6ead07d0102c5084673f1d029a0667de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 64/69] fix: USR1 must reload app.conf whatever the desktop

Only the gnome and X monitors install a handler (of their own), with the others
the signal terminated the mapper.
---
 scripts/keyd-application-mapper | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index e80b571..0c1249d 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -544,10 +544,14 @@ def normalize_title(s):
     return re.sub(r'[\W_]+', '-', s).strip('-').lower()
 
 last_mtime = os.path.getmtime(CONFIG_PATH)
+last_window = ('', '')
 def on_window_change(cls, title):
     global last_mtime
+    global last_window
     global config
 
+    last_window = (cls, title)
+
     cls = normalize_class(cls)
     title = normalize_title(title)
 
@@ -574,4 +578,5 @@ mon.init()
 if args.daemonize:
     daemonize()
 
+signal.signal(signal.SIGUSR1, lambda s, f: on_window_change(*last_window))
 mon.run()
-- 
2.43.0


From 82bed03ae20f8552fa5f20618c194cbff54a0f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:24 +0000
Subject: [PATCH 65/69] fix: the disabled gnome extension must not keep
 reporting windows

The signal handlers were never disconnected, so the extension went on
writing after disable(), and every enable() (e.g after unlocking the
screen) added another line for each focus change.
---
 data/gnome-extension-45/extension.js | 5 ++++-
 data/gnome-extension/extension.js    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 0d1968b..04cbc42 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -40,7 +40,7 @@ function on_pipe_open(file, res) {
 
 export default class KeydExtension extends Extension {
 	enable() {
-		Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+		this._focusId = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 			const win = global.display.focus_window;
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
@@ -59,6 +59,9 @@ export default class KeydExtension extends Extension {
 	}
 
 	disable() {
+		Shell.WindowTracker.get_default().disconnect(this._focusId);
+		Main.layoutManager.disconnectObject(this);
+
 		GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 	}
 }
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index a11f4b6..6053388 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -40,7 +40,7 @@ function on_pipe_open(file, res) {
 function init() {
 	return {
 		enable: function() {
-			Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+			this._focusId = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 				const win = global.display.focus_window;
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
@@ -59,6 +59,9 @@ function init() {
 		},
 
 		disable: function() {
+			Shell.WindowTracker.get_default().disconnect(this._focusId);
+			Main.layoutManager.disconnectObject(this);
+
 			GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 		}
 	}
-- 
2.43.0


From bb3e59d1b0816d51cf7be2667df7093643462c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:26 +0000
Subject: [PATCH 66/69] fix: a newline in a window title must not reset the
 bindings (gnome)

The mapper reads one line per window, so the rest of such a title was
taken for another window without class.
---
 data/gnome-extension-45/extension.js | 9 +++++----
 data/gnome-extension/extension.js    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 04cbc42..b283b7b 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -20,12 +20,13 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+function send(cls, title) {
 	if (!pipe)
 		return;
 
 	try {
-		pipe.write(msg, null);
+		// A newline would end the message early.
+		pipe.write(`${cls}	${title}`.replace(/\n/g, ' ') + '\n', null);
 	} catch {
 		log('pipe closed, reopening...');
 		pipe = null;
@@ -45,12 +46,12 @@ export default class KeydExtension extends Extension {
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
 
-			send(`${cls}	${title}\n`);
+			send(cls, title);
 		});
 
 		Main.layoutManager.connectObject(
 			'system-modal-opened', () => {
-				send(`system-modal	${global.stage.get_title()}\n`);
+				send('system-modal', global.stage.get_title());
 			},
 			this
 		);
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index 6053388..25ed277 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -19,12 +19,13 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+function send(cls, title) {
 	if (!pipe)
 		return;
 
 	try {
-		pipe.write(msg, null);
+		// A newline would end the message early.
+		pipe.write(`${cls}	${title}`.replace(/\n/g, ' ') + '\n', null);
 	} catch {
 		log('pipe closed, reopening...');
 		pipe = null;
@@ -45,12 +46,12 @@ function init() {
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
 
-				send(`${cls}	${title}\n`);
+				send(cls, title);
 			});
 
 			Main.layoutManager.connectObject(
 				'system-modal-opened', () => {
-					send(`system-modal	${global.stage.get_title()}\n`);
+					send('system-modal', global.stage.get_title());
 				},
 				this
 			);
-- 
2.43.0


From d275d67c426b2fa7e5ad81da45ffb5925ed14f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:16 +0000
Subject: [PATCH 67/69] fix: a key released while keyd waits to take over its
 device must not count as held afterwards

---
 src/device.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device.c b/src/device.c
index 6040723..6284274 100644
--- a/src/device.c
+++ b/src/device.c
@@ -367,6 +367,9 @@ int device_grab(struct device *dev)
 	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
 	}
 
+	/* The drained events may include the release of keys which were known to be down. */
+	memset(dev->keystate, 0, sizeof dev->keystate);
+
 	dev->grabbed = 1;
 	return 0;
 }
-- 
2.43.0


From e6a3453e811bd32e779a2b93333a745a00449196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:52 +0000
Subject: [PATCH 68/69] fix: keyd monitor must leave the terminal and the flags
 of its standard input as it found them

---
 src/monitor.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/monitor.c b/src/monitor.c
index 8e461bb..94d319d 100644
--- a/src/monitor.c
+++ b/src/monitor.c
@@ -1,6 +1,7 @@
 #include "keyd.h"
 
 static int time_flag = 0;
+static struct termios initial_tinfo;
 
 static void set_tflags(tcflag_t flags, int val)
 {
@@ -24,10 +25,15 @@ static void cleanup()
 	/* Drain STDIN (useful for scripting). */
 	set_tflags(ICANON, 0);
 	char buf[4096];
-	fcntl(0, F_SETFL, O_NONBLOCK);
+	int flags = fcntl(0, F_GETFL);
+	fcntl(0, F_SETFL, flags | O_NONBLOCK);
 	while(read(0, buf, sizeof buf) > 0) {}
 
-	set_tflags(ICANON|ECHO, 1);
+	/* The flags and the terminal are shared with whoever reads STDIN next. */
+	fcntl(0, F_SETFL, flags);
+
+	if (isatty(0))
+		tcsetattr(0, TCSANOW, &initial_tinfo);
 }
 
 int event_handler(struct event *ev)
@@ -88,6 +94,9 @@ int monitor(int argc, char *argv[])
 	if (argc == 2 && !strcmp(argv[1], "-t"))
 		time_flag = 1;
 
+	if (isatty(0))
+		tcgetattr(0, &initial_tinfo);
+
 	if (isatty(1))
 		set_tflags(ECHO, 0);
 
-- 
2.43.0


From fdd97599396851a83fd122977ec7fab025adb638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:42 +0000
Subject: [PATCH 69/69] fix: lines about layers with names of maximum length
 lack their newline

The buffer had no room for the terminating null byte, which took the
place of the newline.
---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index f890678..4fd7df3 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -183,7 +183,7 @@ static int has_active_layers(const struct keyboard *kbd)
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0

