From e814dbc73b6170d89d87e51388fca4c37c540002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:19 +0000
Subject: [PATCH 01/16] fix: don't panic when sending after max_packet_size
 changes

set_config() may change max_packet_size, after which the capacity of
send_buf is legitimately different from it
---
 src/lib.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4243788..1c0dfc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1444,11 +1444,6 @@ where
         //     This must be done for every return point in send_message
         self.send_buf.clear();
         let mut buf = mem::take(&mut self.send_buf).limit(self.config.max_packet_size.get());
-        debug_assert_eq!(
-            buf.get_ref().capacity(),
-            self.config.max_packet_size.get(),
-            "send_buf lost capacity, would trigger unnecessary allocs"
-        );
 
         if let Err(err) = self
             .codec
-- 
2.43.0


From f4e1611897e5bccb2f5448ea087d34a3eed1d864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:20 +0000
Subject: [PATCH 02/16] fix: don't panic on large max_packet_size or
 num_indirect_probes

Preallocating whatever the configuration says overflows the capacity
(or exhausts the memory) when a limit is set to a very large value
---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c0dfc5..8b946e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,8 +252,8 @@ where
         codec: C,
         broadcast_handler: B,
     ) -> Self {
-        let max_indirect_probes = config.num_indirect_probes.get();
-        let max_bytes = config.max_packet_size.get();
+        // Only a hint: the buffer grows if a (very) large packet requires it
+        let send_buf_capacity = config.max_packet_size.get().min(u16::MAX.into());
         Self {
             identity,
             config,
@@ -262,12 +262,12 @@ where
             incarnation: Incarnation::default(),
             timer_token: TimerToken::default(),
             members: Members::new(Vec::new()),
-            probe: Probe::new(Vec::with_capacity(max_indirect_probes)),
+            probe: Probe::new(Vec::new()),
             updates_buf: Vec::new(),
             choice_buf: Vec::new(),
             connection_state: ConnectionState::Disconnected,
             updates: Broadcasts::new(),
-            send_buf: Vec::with_capacity(max_bytes),
+            send_buf: Vec::with_capacity(send_buf_capacity),
             custom_broadcasts: Broadcasts::new(),
             broadcast_handler,
         }
-- 
2.43.0


From b0415af2514ef68c4b85f879629ef12394c04eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 03/16] fix: don't give up on the identity over an already
 refuted suspicion

An instance at Incarnation::MAX abandoned its identity (or went defunct)
when hearing about a suspicion on any lower incarnation, even though the
incarnation it already has refutes it
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b946e0..6abf199 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1594,7 +1594,7 @@ where
 
                 // We need to rejoin the cluster when this situation happens
                 // because it will be impossible to refute suspicion
-                if incarnation == Incarnation::MAX {
+                if increase_incarnation && incarnation == Incarnation::MAX {
                     if !self.attempt_rejoin(&mut runtime)? {
                         #[cfg(feature = "tracing")]
                         tracing::debug!("Inactive: reached Incarnation::MAX",);
-- 
2.43.0


From 40d9eaa935fe2653124a163c36fd378b045586d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 04/16] fix: stale suspicion timeouts have no effect

ChangeSuspectToDown could act on an older identity of the same address
(bringing back the one already forgotten) and sent TurnUndead again to
members that were already down
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6abf199..346463c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -712,8 +712,11 @@ where
                         // Checking only incarnation is sufficient because to refute
                         // suspicion the member must increment its own incarnation
                         .apply_existing_if(as_down.clone(), |member| {
-                            member.incarnation() == incarnation
+                            member.id() == &member_id && member.incarnation() == incarnation
                         })
+                        // Whatever else happened to the member in the meantime
+                        // makes this event stale
+                        .filter(|summary| summary.apply_successful)
                     {
                         self.handle_apply_summary(summary, as_down, true, &mut runtime)?;
                         // Member went down we might need to adjust our internal state
-- 
2.43.0


From 60ce338ff00a69f20fd4142ad0987f9531b5b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 05/16] fix: failed probes only affect the identity that was
 probed

If the probed member goes down and gets forgotten during the probe
cycle, and an older identity of the same address appears, the outcome
of the probe would replace that member with the one that didn't reply
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 346463c..cfd735d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1164,11 +1164,12 @@ where
             //     being declared down by another cluster member
             //
             //  4. The member doesn't exist anymore. i.e. a newer identity with
-            //     the same address has appeared in the cluster
+            //     the same address has appeared in the cluster, or the member
+            //     went Down, got forgotten and another identity took its place
             let as_suspect = Member::new(failed.id().clone(), failed.incarnation(), State::Suspect);
             if let Some(summary) = self
                 .members
-                .apply_existing_if(as_suspect.clone(), |_member| true)
+                .apply_existing_if(as_suspect.clone(), |member| member.id() == failed.id())
             {
                 let is_active_now = summary.is_active_now;
                 #[cfg_attr(not(feature = "tracing"), expect(unused_variables))]
-- 
2.43.0


From 94eac7e116a5fb7ec225338783d1fb83310fe953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:56 +0000
Subject: [PATCH 06/16] fix: don't announce to our own previous identities

---
 src/lib.rs    | 10 ++++++++--
 src/member.rs | 17 ++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfd735d..b96e27a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -493,8 +493,14 @@ where
 
     fn announce_to_down(&mut self, num_members: usize, mut runtime: impl Runtime<T>) -> Result<()> {
         self.choice_buf.clear();
-        self.members
-            .choose_down_members(num_members, &mut self.choice_buf, &mut self.rng);
+        // Down members may include previous identities of ours
+        let own_addr = self.identity.addr();
+        self.members.choose_down_members_if(
+            num_members,
+            &mut self.choice_buf,
+            &mut self.rng,
+            |member| member.addr() != own_addr,
+        );
 
         while let Some(chosen) = self.choice_buf.pop() {
             self.send_message(chosen.into_identity(), Message::Announce, &mut runtime)?;
diff --git a/src/member.rs b/src/member.rs
index 3c0daa1..42fb274 100644
--- a/src/member.rs
+++ b/src/member.rs
@@ -240,13 +240,28 @@ where
         }
     }
 
+    #[cfg(test)]
     pub(crate) fn choose_down_members(
         &self,
         wanted: usize,
         output: &mut Vec<Member<T>>,
         rng: impl Rng,
     ) {
-        self.choose_members(wanted, output, rng, |member| !member.is_active());
+        self.choose_down_members_if(wanted, output, rng, |_| true);
+    }
+
+    pub(crate) fn choose_down_members_if<F>(
+        &self,
+        wanted: usize,
+        output: &mut Vec<Member<T>>,
+        rng: impl Rng,
+        picker: F,
+    ) where
+        F: Fn(&T) -> bool,
+    {
+        self.choose_members(wanted, output, rng, |member| {
+            !member.is_active() && picker(member.id())
+        });
     }
 
     pub(crate) fn choose_active_members<F>(
-- 
2.43.0


From bf07b43594fba81fb90ac8e97d0de894e0532dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:04 +0000
Subject: [PATCH 07/16] fix: forget the member whose address we take over

---
 src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b96e27a..16d16e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -314,7 +314,7 @@ where
     ///
     /// Intended to be used when identities carry metadata that occasionally
     /// changes.
-    pub fn change_identity(&mut self, new_id: T, runtime: impl Runtime<T>) -> Result<()> {
+    pub fn change_identity(&mut self, new_id: T, mut runtime: impl Runtime<T>) -> Result<()> {
         if self.identity == new_id {
             Err(Error::SameIdentity)
         } else {
@@ -339,6 +339,19 @@ where
                     .add_or_replace(addr, data, self.config.max_transmissions.get().into());
             }
 
+            // The new identity may come with a new address. Whoever we knew
+            // there isn't reachable anymore (see the NOTE in `apply_many`)
+            let own_addr = self.identity.addr();
+            let stale = self
+                .members
+                .iter_active()
+                .map(Member::id)
+                .find(|id| *id != &self.identity && id.addr() == own_addr)
+                .cloned();
+            if let Some(stale) = stale {
+                self.apply_update(Member::down(stale), true, &mut runtime)?;
+            }
+
             self.gossip(runtime)?;
 
             Ok(())
-- 
2.43.0


From 9e4bcfff201462d8f35d021b5ef1f7d9fd287e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:01 +0000
Subject: [PATCH 08/16] fix: don't bounce TurnUndead between members that can't
 rejoin

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 16d16e5..daeafe5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -988,6 +988,13 @@ where
             // that foca forgets the down member (`Config::remove_down_after`)
             if message == Message::TurnUndead {
                 self.handle_self_update(Incarnation::default(), State::Down, &mut runtime)?;
+
+                // If we can't come back with another identity there's nothing
+                // else to tell: replying would make both members bounce this
+                // message back and forth
+                if self.connection_state == ConnectionState::Undead {
+                    return Ok(());
+                }
             }
 
             if self.config.notify_down_members {
-- 
2.43.0


From ad4eebb571977084851db9b7474ec4a73a00fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:55 +0000
Subject: [PATCH 09/16] fix: don't trust lengths read by the bincode codec

Without a configured limit, bincode allocates whatever a length prefix
asks for before reading, so a few bytes off the network could panic with
a capacity overflow or abort the process
---
 src/codec/bincode_impl.rs | 46 +++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/codec/bincode_impl.rs b/src/codec/bincode_impl.rs
index f754a9c..98892e2 100644
--- a/src/codec/bincode_impl.rs
+++ b/src/codec/bincode_impl.rs
@@ -50,8 +50,7 @@ where
     }
 
     fn decode_header(&mut self, buf: impl bytes::Buf) -> Result<Header<T>, Self::Error> {
-        let mut reader = buf.reader();
-        bincode::serde::decode_from_std_read(&mut reader, self.0).map_err(Error::Decode)
+        decode(buf, self.0)
     }
 
     fn encode_member(
@@ -66,11 +65,50 @@ where
     }
 
     fn decode_member(&mut self, buf: impl bytes::Buf) -> Result<Member<T>, Self::Error> {
-        let mut reader = buf.reader();
-        bincode::serde::decode_from_std_read(&mut reader, self.0).map_err(Error::Decode)
+        decode(buf, self.0)
     }
 }
 
+/// Upper bound for what a single header or member may claim to need when the
+/// configuration doesn't set a limit by itself: without one, bincode trusts the
+/// lengths it reads and allocates whatever they ask for upfront
+const DECODE_LIMIT: usize = 16 * 1024 * 1024;
+
+fn decode<D, O>(buf: impl bytes::Buf, config: O) -> Result<D, Error>
+where
+    D: for<'de> serde::Deserialize<'de>,
+    O: bincode::config::Config,
+{
+    use bincode::{
+        config::{Endianness, IntEncoding},
+        serde::decode_from_std_read,
+    };
+
+    let mut reader = buf.reader();
+
+    if config.limit().is_some() {
+        return decode_from_std_read(&mut reader, config).map_err(Error::Decode);
+    }
+
+    let limited = bincode::config::standard().with_limit::<DECODE_LIMIT>();
+    match (config.endianness(), config.int_encoding()) {
+        (Endianness::Little, IntEncoding::Variable) => decode_from_std_read(&mut reader, limited),
+        (Endianness::Little, IntEncoding::Fixed) => {
+            decode_from_std_read(&mut reader, limited.with_fixed_int_encoding())
+        }
+        (Endianness::Big, IntEncoding::Variable) => {
+            decode_from_std_read(&mut reader, limited.with_big_endian())
+        }
+        (Endianness::Big, IntEncoding::Fixed) => decode_from_std_read(
+            &mut reader,
+            limited.with_big_endian().with_fixed_int_encoding(),
+        ),
+        // XXX both enums are non-exhaustive
+        _ => decode_from_std_read(&mut reader, config),
+    }
+    .map_err(Error::Decode)
+}
+
 #[cfg(test)]
 mod tests {
     use super::{BincodeCodec, Error};
-- 
2.43.0


From 777e137e015e81b11bfcbac7bd59f7a8bb2ce8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 10/16] fix: refuse broadcasts that don't fit a 16-bit length
 prefix

With max_packet_size above 64KiB these were accepted and then had their
length truncated (or tripped a debug assertion) when sending
---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index daeafe5..26b1904 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -612,8 +612,9 @@ where
             return Err(Error::MalformedPacket);
         }
 
-        // Not considering the whole header
-        if data.len() > self.config.max_packet_size.get() {
+        // Not considering the whole header. Items are length-prefixed
+        // with a u16 on the wire
+        if data.len() > self.config.max_packet_size.get() || data.len() > u16::MAX.into() {
             return Err(Error::DataTooBig);
         }
 
-- 
2.43.0


From 3f59bc64d745257409e70204d10367bf3cecc162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 11/16] fix: Feed lists at most u16::MAX members

The tally overflowed with more than that many active members and a packet
size large enough to fit them
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 26b1904..aea90f0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1445,7 +1445,8 @@ where
         // so header_len / 2 is good enough for identity_len
         let identity_len = { self.config.max_packet_size.get().saturating_sub(remaining) / 2 };
         // and we always answer at least 5, in case the estimation is bonkers
-        usize::max(remaining / identity_len, 5)
+        // Can't list more than what fits the u16 tally either
+        (remaining / identity_len).clamp(5, u16::MAX.into())
     }
 
     fn send_message(
-- 
2.43.0


From 622d608fb3ea6d891c3c95fd35431bba93c13b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 12/16] fix: don't refute suspicions after leaving the cluster

A member that left (or is otherwise defunct) kept refuting the suspicions
of whoever was not told it left, so those never got to declare it down.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aea90f0..05f1cc9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1648,7 +1648,11 @@ where
                 // But since the cluster is chatting about us possibly being
                 // down, we'll send a few updates around in order to help
                 // disseminate the refutation
-                self.gossip(runtime)?;
+                // Unless we are down: we left the cluster (or can't go back
+                // to it) and the suspicion is right
+                if self.connection_state != ConnectionState::Undead {
+                    self.gossip(runtime)?;
+                }
             }
             State::Alive => {
                 // The cluster is talking about our liveness. Nothing to do.
-- 
2.43.0


From 0f34f9f6e8b59cd6fc5976ee8583b832e156a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:58 +0000
Subject: [PATCH 13/16] fix: announce to active members after rejoining

Only Announce is accepted no matter which identity of an address it was
sent to. Members rejoining at the same time (a healed partition) sent
everything to each other's previous identity, got no answers and stayed
idle forever.
---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05f1cc9..7991935 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1687,6 +1687,15 @@ where
 
                 runtime.notify(Notification::Rejoin(&new_identity));
 
+                // The members we know may be renewing their identities too,
+                // in which case they only accept announces: when everyone
+                // rejoins at the same time, nobody hears from anybody else
+                self.choose_and_send(
+                    self.config.num_indirect_probes.get(),
+                    Message::Announce,
+                    runtime,
+                )?;
+
                 Ok(true)
             }
         } else {
-- 
2.43.0


From 4d3312ba7445e5630fc4f6cdf51b2e074768ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:04 +0000
Subject: [PATCH 14/16] fix: don't let timer tokens wrap around

---
 src/runtime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 2fc3fea..b89888f 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -300,7 +300,7 @@ impl<T: Eq> core::cmp::Ord for Timer<T> {
 /// to drop everything that doesn't match.
 ///
 /// Similar in spirit to [`crate::ProbeNumber`].
-pub type TimerToken = u8;
+pub type TimerToken = u64;
 
 /// A `Runtime` implementation that's good enough for simple use-cases.
 ///
-- 
2.43.0


From e0ff89efcd4167a714f7d2fb852e1ec529fcb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 15/16] fix: keep probing when a ping can't be encoded

---
 src/lib.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7991935..16d9a8f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1154,13 +1154,16 @@ where
     }
 
     fn probe_random_member(&mut self, mut runtime: impl Runtime<T>) -> Result<()> {
-        // NEEDSWORK: A codec error may leave us in a weird state where
-        //            foca talks to the cluster normally but never
-        //            probes their peers. It's, however, unlikely to
-        //            happen as there are many attempts at
-        //            encoding/decoding members before we start probing
         debug_assert_eq!(self.connection_state, ConnectionState::Connected);
 
+        // Submitted upfront so that an error while preparing messages (such
+        // as an identity too large for `max_packet_size`) doesn't leave us
+        // talking to the cluster normally but never probing our peers
+        runtime.submit_after(
+            Timer::ProbeRandomMember(self.timer_token),
+            self.config.probe_period,
+        );
+
         let probe_was_incomplete = !self.probe.validate();
         if probe_was_incomplete {
             #[cfg(feature = "tracing")]
@@ -1238,15 +1241,15 @@ where
             #[cfg(feature = "tracing")]
             tracing::debug!(member_id = tracing::field::debug(&member_id), "Probe start");
 
-            self.send_message(member_id.clone(), Message::Ping(probe_number), &mut runtime)?;
-
             runtime.submit_after(
                 Timer::SendIndirectProbe {
-                    probed_id: member_id,
+                    probed_id: member_id.clone(),
                     token: self.timer_token,
                 },
                 self.config.probe_rtt,
             );
+
+            self.send_message(member_id, Message::Ping(probe_number), &mut runtime)?;
         } else {
             // Should never happen... Reaching here is gated by being
             // online, which requires having at least one active member
@@ -1254,11 +1257,6 @@ where
             tracing::debug!("Expected to find an active member to probe");
         }
 
-        runtime.submit_after(
-            Timer::ProbeRandomMember(self.timer_token),
-            self.config.probe_period,
-        );
-
         if probe_was_incomplete {
             Err(Error::IncompleteProbeCycle)
         } else {
-- 
2.43.0


From fc19d334f87864ba42ae395fb61be791f7f2e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:07 +0000
Subject: [PATCH 16/16] fix: don't list ourselves after renewing into a known
 identity

---
 src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 16d9a8f..75a154f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -346,10 +346,16 @@ where
                 .members
                 .iter_active()
                 .map(Member::id)
-                .find(|id| *id != &self.identity && id.addr() == own_addr)
+                .find(|id| id.addr() == own_addr)
                 .cloned();
             if let Some(stale) = stale {
-                self.apply_update(Member::down(stale), true, &mut runtime)?;
+                // It may be exactly who we are now (we've been restarted and
+                // renewed into an identity from before): not ours to declare
+                // down then
+                let do_broadcast = stale != self.identity;
+                let update = Member::down(stale);
+                let summary = self.members.apply(update.clone(), &mut self.rng);
+                self.handle_apply_summary(summary, update, do_broadcast, &mut runtime)?;
             }
 
             self.gossip(runtime)?;
-- 
2.43.0

