From a6f8584ffd2b9fea9f8b61bd2827643f25d12a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 01/10] fix: keep unterminated ANSI sequence ranges in bounds

---
 fyi_msg/src/ansi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/ansi.rs b/fyi_msg/src/ansi.rs
index 24bfb4c..b4c78a6 100644
--- a/fyi_msg/src/ansi.rs
+++ b/fyi_msg/src/ansi.rs
@@ -313,7 +313,6 @@ impl<'a> Iterator for OnlyAnsi<'a> {
 /// within the string, or `None`.
 pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 	// Find the start of the range.
-	let len = src.len();
 	let start = src.as_bytes()
 		.windows(2)
 		.position(|pair| matches!(pair, b"\x1b[" | b"\x1b]"))?;
@@ -352,7 +351,8 @@ pub(crate) fn next_ansi(src: &str) -> Option<Range<usize>> {
 		_ => {},
 	}
 
-	Some(start..start + end.unwrap_or(len))
+	// Unterminated sequences run clear through to the end of the string.
+	Some(start..end.map_or(src.len(), |end| start + end))
 }
 
 
-- 
2.43.0


From 3e82e7556aae46ab804a0e1d011946e29857d1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 02/10] fix: avoid integer overflow when dividing up the
 progress bar

---
 fyi_msg/src/progress/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 8da7400..9b02c3a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -970,7 +970,7 @@ impl ProglessBuffer {
 			else if done == total { w_done = space; }
 			// Working on it!
 			else {
-				w_done = u8::saturating_from((done * u32::from(space)).wrapping_div(total));
+				w_done = u8::saturating_from((u64::from(done) * u64::from(space)).wrapping_div(u64::from(total)));
 				w_undone = space.saturating_sub(w_done);
 			}
 
-- 
2.43.0


From 4dfde0bf208810e214333d01e53931652dc9d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 03/10] fix: don't duplicate line breaks swallowed by
 unterminated ANSI sequences

---
 fyi_msg/src/fitted.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fyi_msg/src/fitted.rs b/fyi_msg/src/fitted.rs
index e6c4439..7f74c48 100644
--- a/fyi_msg/src/fitted.rs
+++ b/fyi_msg/src/fitted.rs
@@ -120,9 +120,12 @@ pub fn fit_to_width(src: &str, width: usize) -> Cow<str> {
 					};
 
 					// Keep the fitable, "lost" ANSI, and trailing breaks.
+					// (The breaks have to be trimmed from the search space first or
+					// an unterminated sequence would swallow — and duplicate — them.)
+					let end = terminator($line);
 					$out.push_str(keep);
-					$out.extend(OnlyAnsi::new(kill));
-					$out.push_str(terminator($line));
+					$out.extend(OnlyAnsi::new(kill.strip_suffix(end).unwrap_or(kill)));
+					$out.push_str(end);
 				);
 			}
 
-- 
2.43.0


From 499012d9ef4374567849168e64255da735eb91f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 04/10] fix: don't lose concurrent progress increments

---
 fyi_msg/src/progress/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 9b02c3a..ef2989a 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -403,14 +403,16 @@ impl ProglessInner {
 		if n != 0 && self.running() {
 			// Don't bother recasting the parts to u32; leaving them as-is
 			// moots addition overflow and simplifies the subsequent joining.
-			let done_total = self.done_total.load(SeqCst);
-			let done = done!(done_total) + u64::from(n);
-			let total = total!(done_total);
+			// The update has to be atomic, though, or concurrent increments
+			// would be able to overwrite one another.
+			let res = self.done_total.fetch_update(SeqCst, SeqCst, |done_total| {
+				let done = done!(done_total) + u64::from(n);
+				let total = total!(done_total);
+				if done < total { Some(done_total!(done, total)) }
+				else { None }
+			});
 
-			if done < total {
-				self.done_total.store(done_total!(done, total), SeqCst);
-				self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst);
-			}
+			if res.is_ok() { self.flags.fetch_or(TICK_DONE | TICK_BAR, SeqCst); }
 			// Time to call it quits!
 			else { self.stop(); }
 		}
-- 
2.43.0


From 4b4c976d38710f8534bbab3ae0d036fbb080260f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:12 +0000
Subject: [PATCH 05/10] fix: bring back hidden progress tasks when the title is
 removed

---
 fyi_msg/src/progress/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index ef2989a..3b562c7 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -651,16 +651,16 @@ impl ProglessInner {
 		// Titles don't change very often, but they're given display priority
 		// over the tasks so need to be checked first.
 		if TICK_TITLE == ticked & TICK_TITLE {
-			// Did we have a title and tasks last time?
-			let before = buf.doing.is_empty() || ! buf.title.is_empty();
+			// Did we have a title last time?
+			let before = ! buf.title.is_empty();
 
 			// Update it.
 			buf.set_title(mutex!(self.title).as_ref(), width, height);
 
-			// If we now have a title and didn't before, and there were tasks
-			// potentially competing for space, force a task redraw to make
-			// sure the extra (title) line isn't one line too many.
-			if ! before && ! buf.title.is_empty() {
+			// If the title came or went, force a task redraw to make sure the
+			// extra (title) line isn't one line too many, or that any tasks
+			// it was keeping off the screen can be brought back.
+			if before == buf.title.is_empty() {
 				ticked |= TICK_DOING;
 			}
 		}
-- 
2.43.0


From 2f995c9809ba920a533f0cb3449c448d900e6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 06/10] fix: keep a ticker's shared state from being reset
 while finish() waits for that ticker

---
 fyi_msg/src/progress/steady.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/fyi_msg/src/progress/steady.rs b/fyi_msg/src/progress/steady.rs
index 618dd6b..2f27bce 100644
--- a/fyi_msg/src/progress/steady.rs
+++ b/fyi_msg/src/progress/steady.rs
@@ -76,13 +76,17 @@ impl ProglessSteady {
 	///
 	/// Make sure the steady ticker is up and running!
 	pub(super) fn start(&self, t_inner: Arc<ProglessInner>) {
+		// Keep the lock until we're done; the state is shared by all tickers,
+		// so must not be reset while somebody is waiting for an old one.
+		let mut ticker = mutex!(self.ticker);
+
 		// Make sure the old steady ticker is dead.
-		self.stop();
+		if let Some(handle) = ticker.take() { self.abort(handle); }
 
 		// Reset!
 		*mutex!(self.state.0) = false;
 		let t_state = Arc::clone(&self.state);
-		mutex!(self.ticker).replace(spawn_ticker(t_state, t_inner));
+		ticker.replace(spawn_ticker(t_state, t_inner));
 	}
 
 	#[inline]
@@ -92,14 +96,20 @@ impl ProglessSteady {
 	/// automatically when [`Progless::finish`](crate::Progless::finish) is called or the instance is
 	/// dropped.
 	pub(super) fn stop(&self) {
-		let handle = mutex!(self.ticker).take();
-		if let Some(handle) = handle {
-			if ! *mutex!(self.state.0) {
-				*mutex!(self.state.0) = true;
-				self.state.1.notify_all();
-			}
-			handle.join().unwrap();
+		let mut ticker = mutex!(self.ticker);
+		if let Some(handle) = ticker.take() { self.abort(handle); }
+	}
+
+	/// # Abort.
+	///
+	/// Tell the ticker to stop, and wait until it has. The `ticker` lock has
+	/// to be held by the caller, lest the state be reset too soon.
+	fn abort(&self, handle: JoinHandle<()>) {
+		if ! *mutex!(self.state.0) {
+			*mutex!(self.state.0) = true;
+			self.state.1.notify_all();
 		}
+		handle.join().unwrap();
 	}
 }
 
-- 
2.43.0


From 0a1d0111eba407488cc520ef134b9c71a066370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 07/10] fix: don't draw over a screen that was cleared when
 progress stopped

A tick (or pushed message) that had already seen progress running could
be waiting for STDERR when another thread stopped it, and would go on to
draw a frame after the final clear, leaving it there for good.
---
 fyi_msg/src/progress/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index 3b562c7..f774d82 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -332,13 +332,14 @@ impl ProglessInner {
 	/// needed), set "done" equal to "total", and clear any active tasks. It
 	/// will also erase the CLI progress bar from the screen.
 	fn stop(&self) {
+		// Acquire the lock a little early just in case there is a final
+		// in-progress tick, and so that nothing can be drawn or printed
+		// between the shutdown and the cleanup.
+		let mut handle = std::io::stderr().lock();
+
 		// Shut 'er down!
 		let flags = self.flags.swap(0, SeqCst);
 		if TICKING == flags & TICKING {
-			// Acquire the lock a little early just in case there is a
-			// final in-progress tick.
-			let mut handle = std::io::stderr().lock();
-
 			// Make sure "done" equals "total".
 			let done_total = self.done_total.load(SeqCst);
 			let total = total!(done_total);
@@ -585,6 +586,10 @@ impl ProglessInner {
 		// possible, even though we may well not end up using it.
 		let mut handle = std::io::stderr().lock();
 
+		// Make sure progress wasn't stopped — and the screen cleared for good
+		// — while we were waiting on the lock.
+		if ! self.running() { return false; }
+
 		// Pull the terminal dimensions.
 		let Some((width, height)) = self.tick_set_size() else {
 			// The size either changed between ticks or cannot be determined.
-- 
2.43.0


From 0c33221015b1c56cf0167cea243d2a4a76adeba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 08/10] fix: no task is left active by an add that races with
 the end of progress

Progress could stop, and clear its tasks, between add()'s look at the
running state and its insertion (label sanitising in between), leaving a
task active that would show up again after a reset. Check again while
holding the tasks.
---
 fyi_msg/src/progress/mod.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fyi_msg/src/progress/mod.rs b/fyi_msg/src/progress/mod.rs
index f774d82..96df59e 100644
--- a/fyi_msg/src/progress/mod.rs
+++ b/fyi_msg/src/progress/mod.rs
@@ -385,10 +385,13 @@ impl ProglessInner {
 	///
 	/// Returns `true` if the task was accepted.
 	fn add(&self, txt: &str) -> bool {
-		if
-			self.running() &&
-			progless_task(txt).is_some_and(|m| mutex!(self.doing).insert(m))
-		{
+		if ! self.running() { return false; }
+		let Some(task) = progless_task(txt) else { return false; };
+
+		// Progress might have been stopped — and the tasks cleared — while we
+		// were busy with the label, so check again now that they're locked.
+		let mut ptr = mutex!(self.doing);
+		if self.running() && ptr.insert(task) {
 			self.flags.fetch_or(TICK_DOING, SeqCst);
 			true
 		}
-- 
2.43.0


From 8a481fdec18870cb425322267d659a5302ed0cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 09/10] fix: write to the descriptor from SIGINT handlers

---
 fyi_msg/src/progress/signals.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index b4152c4..98b7e31 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -276,7 +276,7 @@ fn sigint_default() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move || {
 			// Unhide our cursor if we changed state.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				sigint_unhide();
 			}
 
 			// One strike and you're out!
@@ -308,7 +308,7 @@ fn sigint_two_strike() -> Arc<AtomicBool> {
 			// Terminate the process if the switch was already true.
 			if t_switch.swap(true, SeqCst) { signal_hook::low_level::exit(1); }
 			// Otherwise just unhide the cursor.
-			else { eprint!("{}", Progless::CURSOR_UNHIDE); }
+			else { sigint_unhide(); }
 		).is_err() { sigint_error(); }
 	}
 
@@ -335,7 +335,7 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 		if signal_hook::low_level::register(SIGINT, move ||
 			// Unhide the cursor.
 			if ! t_switch.swap(true, SeqCst) {
-				eprint!("{}", Progless::CURSOR_UNHIDE);
+				sigint_unhide();
 			}
 		).is_err() { sigint_error(); }
 	}
@@ -343,6 +343,32 @@ fn sigint_keepalive() -> Arc<AtomicBool> {
 	switch
 }
 
+#[cfg(all(feature = "signals_sigint", unix))]
+#[expect(unsafe_code, reason = "For raw STDERR access.")]
+/// # Unhide Cursor (From a Signal Handler).
+///
+/// A signal can come in while its own thread is in the middle of a write to
+/// `STDERR` — or holding something another writer is waiting for — so our
+/// listeners mustn't use (or wait for) the standard library's shared handle,
+/// and write to the underlying descriptor directly instead.
+fn sigint_unhide() {
+	use std::{
+		fs::File,
+		io::Write,
+		mem::ManuallyDrop,
+		os::fd::FromRawFd,
+	};
+
+	// Safety: descriptor two is always STDERR, and `ManuallyDrop` keeps it
+	// open once we're done with it.
+	let mut err = ManuallyDrop::new(unsafe { File::from_raw_fd(2) });
+	let _res = err.write_all(Progless::CURSOR_UNHIDE.as_bytes());
+}
+
+#[cfg(all(feature = "signals_sigint", not(unix)))]
+/// # Unhide Cursor (From a Signal Handler).
+fn sigint_unhide() { eprint!("{}", Progless::CURSOR_UNHIDE); }
+
 #[cfg(feature = "signals_sigint")]
 #[inline]
 /// # `SIGINT` Handler Registration Error.
-- 
2.43.0


From 1d8f570148575277a700cd848d9d3e7f8c778244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 10/10] fix: keep the cursor visible if a SIGINT comes in while
 hiding it

---
 fyi_msg/src/progress/signals.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fyi_msg/src/progress/signals.rs b/fyi_msg/src/progress/signals.rs
index 98b7e31..8698ad6 100644
--- a/fyi_msg/src/progress/signals.rs
+++ b/fyi_msg/src/progress/signals.rs
@@ -167,7 +167,13 @@ impl Default for ProglessSignals {
 		let sigint = SIGINT_HANLDER.get_or_init(sigint_default);
 
 		#[cfg(feature = "signals_sigint")]
-		if ! sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_HIDE); }
+		if ! sigint.load(SeqCst) {
+			eprint!("{}", Progless::CURSOR_HIDE);
+
+			// If a signal came in while we were doing that, its listener may
+			// have unhidden the cursor too early.
+			if sigint.load(SeqCst) { eprint!("{}", Progless::CURSOR_UNHIDE); }
+		}
 
 		Self {
 			#[cfg(feature = "signals_sigint")]
-- 
2.43.0

