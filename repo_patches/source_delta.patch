From 6bbc906fc42c1540be14b3d70a452b24bf54ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 01/26] fix: offer_cancel_mpst drops the previous session once
 it has handed over the new link

The statement shadowed the previous session instead of consuming it, so it
stayed alive for the rest of the protocol and kept the buffered link (and thus
the participant's own connection to the broadcaster) alive: after a
cancellation the participant waited for itself.
---
 mpst_seq_proc/src/baking/baking_with_cancel.rs | 2 +-
 src/macros_multiple/offer.rs                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/baking/baking_with_cancel.rs b/mpst_seq_proc/src/baking/baking_with_cancel.rs
index d80a96f..6a30048 100644
--- a/mpst_seq_proc/src/baking/baking_with_cancel.rs
+++ b/mpst_seq_proc/src/baking/baking_with_cancel.rs
@@ -185,7 +185,7 @@ impl BakingWithCancel {
                 ($session: expr, { $( $pat: pat => $result: expr, )+ }) => {
                     (move || -> Result<_, _> {
                         let ((session1, cont), s) = $session.recv()?;
-                        let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+                        s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
                         mpstthree::binary::cancel::cancel(s);
                         match cont {
                             $(
diff --git a/src/macros_multiple/offer.rs b/src/macros_multiple/offer.rs
index cc76ade..226f40e 100644
--- a/src/macros_multiple/offer.rs
+++ b/src/macros_multiple/offer.rs
@@ -200,7 +200,7 @@ macro_rules! offer_cancel_mpst {
     ($session: expr, $recv_mpst: ident, { $( $pat: pat => $result: expr, )+ }) => {
         (move || -> Result<_, _> {
             let ((session1, cont), s) = $recv_mpst($session)?;
-            let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+            s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
             mpstthree::binary::cancel::cancel(s);
             match cont {
                 $(
-- 
2.43.0


From a446b39ccccadc6b86581ad4291e8cbc9487b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 02/26] fix: checked send treats a vanished broadcaster as a
 cancellation

---
 .../macros_multiple/multiple/send/create_send_check_cancel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs
index 47b39b4..4250576 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs
@@ -157,6 +157,10 @@ impl CreateSendCheckCancel {
                         mpstthree::binary::cancel::cancel(s);
                         panic!("Error")
                     },
+                    Err(e) if e.is_disconnected() => {
+                        mpstthree::binary::cancel::cancel(s);
+                        panic!("Error")
+                    },
                     _ => {}
                 };
 
-- 
2.43.0


From 659a90de215934326ab3474cf594bbbfeebe5597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 03/26] fix: broadcast_cancel notices participants that died
 without a Cancel signal

It span for ever on a disconnected link that had not been closed.
---
 .../src/macros_multiple/multiple/broadcast_cancel.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
index e051f14..42ab39b 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
@@ -82,6 +82,11 @@ impl BroadcastCancel {
                                 Ok(mpstthree::binary::struct_trait::end::Signal::Offer(channel)) => {
                                     s.#field_session = channel;
                                 }
+                                Err(e) if e.is_disconnected() && #bool_session => {
+                                    #send_sessions
+                                    mpstthree::binary::cancel::cancel(s);
+                                    panic!("Error");
+                                }
                                 _ => {}
                             };
                         )*
-- 
2.43.0


From 4736cb02d16dbd8b09f307f5e1ec67558a6668d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 04/26] fix: cancelling selections give every participant its
 own link to the broadcaster

The links were popped in reverse order, so a participant forwarded the
broadcaster's end of somebody else's link, and a Cancel signal could pass it by.
---
 .../choose/choose_mpst_multi_cancel_to_all.rs | 23 ++++++----------
 ..._choose_mpst_cancel_multi_to_all_bundle.rs | 26 +++++++++----------
 2 files changed, 20 insertions(+), 29 deletions(-)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/choose/choose_mpst_multi_cancel_to_all.rs b/mpst_seq_proc/src/macros_multiple/multiple/choose/choose_mpst_multi_cancel_to_all.rs
index b539928..0cd2a88 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/choose/choose_mpst_multi_cancel_to_all.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/choose/choose_mpst_multi_cancel_to_all.rs
@@ -101,8 +101,6 @@ impl ChooseTypeMultiCancelToAll {
                         let ( #channel_left , #channel_right ) =
                             <mpstthree::binary::struct_trait::end::End
                                 as mpstthree::binary::struct_trait::session::Session>::new();
-
-                        temp.push( #channel_left );
                     }
                 } else {
                     quote! {
@@ -135,6 +133,8 @@ impl ChooseTypeMultiCancelToAll {
 
         let new_stack_sender = Ident::new(&format!("stack_{}", self.n_sessions), Span::call_site());
 
+        let elt_sender = Ident::new(&format!("channel_1_{}", self.exclusion), Span::call_site());
+
         let all_send: Vec<TokenStream> = (2..self.n_sessions)
             .map(|i| {
                 let new_sessions: Vec<TokenStream> = (1..self.n_sessions)
@@ -168,15 +168,14 @@ impl ChooseTypeMultiCancelToAll {
                     panic!("Not enough labels")
                 };
 
-                quote! {
-                    let elt = match temp.pop() {
-                        Some(e) => e,
-                        _ => panic!("Error type"),
-                    };
+                // The end, on the broadcaster's side, of the link with this receiver
+                let receiver = if i >= self.exclusion { i + 1 } else { i };
+                let temp_elt = Ident::new(&format!("channel_1_{receiver}"), Span::call_site());
 
+                quote! {
                     let _  = mpstthree::binary::send::send_canceled(
                         (
-                            elt,
+                            #temp_elt,
                             #temp_label(#meshedchannels_name {
                                 #(
                                     #new_sessions
@@ -213,8 +212,6 @@ impl ChooseTypeMultiCancelToAll {
 
         quote! {
             {
-                let mut temp = Vec::<mpstthree::binary::struct_trait::end::End>::new();
-
                 #(
                     #new_channels
                 )*
@@ -252,11 +249,7 @@ impl ChooseTypeMultiCancelToAll {
                     #all_send
                 )*
 
-                let elt = match temp.pop() {
-                    Some(e) => e,
-                    _ => panic!("Error type"),
-                };
-                let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(elt)).unwrap();
+                let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(#elt_sender)).unwrap();
 
                 #meshedchannels_name {
                     #(
diff --git a/mpst_seq_proc/src/macros_multiple/multiple/choose/create_fn_choose_mpst_cancel_multi_to_all_bundle.rs b/mpst_seq_proc/src/macros_multiple/multiple/choose/create_fn_choose_mpst_cancel_multi_to_all_bundle.rs
index 742e9cc..abd4e35 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/choose/create_fn_choose_mpst_cancel_multi_to_all_bundle.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/choose/create_fn_choose_mpst_cancel_multi_to_all_bundle.rs
@@ -170,7 +170,6 @@ impl ChooseTypeCancelMultiToAllBundle {
                                 let ( #channel_left , #channel_right ) =
                                     <mpstthree::binary::struct_trait::end::End
                                         as mpstthree::binary::struct_trait::session::Session>::new();
-                                temp.push( #channel_left );
                             }
                         } else {
                             quote! {
@@ -227,6 +226,10 @@ impl ChooseTypeCancelMultiToAllBundle {
                     } else {
                         panic!("Not enough branches for all_functions")
                     };
+
+                let elt_sender =
+                    Ident::new(&format!("channel_1_{}", self.exclusion), Span::call_site());
+
                 let all_send: Vec<TokenStream> = (2..self.n_sessions)
                     .map(|j| {
                         let new_sessions: Vec<TokenStream> = (1..self.n_sessions)
@@ -264,14 +267,16 @@ impl ChooseTypeCancelMultiToAllBundle {
                         } else {
                             panic!("Not enough labels for all_send")
                         };
+
+                        // The end, on the broadcaster's side, of the link with this receiver
+                        let receiver = if j >= self.exclusion { j + 1 } else { j };
+                        let temp_elt =
+                            Ident::new(&format!("channel_1_{receiver}"), Span::call_site());
+
                         quote! {
-                            let elt = match temp.pop() {
-                                Some(e) => e,
-                                _ => panic!("Error type"),
-                            };
                             let _  = mpstthree::binary::send::send_canceled(
                                 (
-                                    elt,
+                                    #temp_elt,
                                     #temp_label::#temp_branches(
                                         #meshedchannels_name {
                                             #(
@@ -320,8 +325,6 @@ impl ChooseTypeCancelMultiToAllBundle {
                         >
                     ) -> Result< #temp_new_type , Box<dyn std::error::Error>>
                     {
-                        let mut temp = Vec::<mpstthree::binary::struct_trait::end::End>::new();
-
                         #(
                             #new_channels
                         )*
@@ -346,14 +349,9 @@ impl ChooseTypeCancelMultiToAllBundle {
                             #all_send
                         )*
 
-                        let elt = match temp.pop() {
-                            Some(e) => e,
-                            _ => panic!("Error type"),
-                        };
-
                         let s =
                             s.session1.sender.send(
-                                mpstthree::binary::struct_trait::end::Signal::Offer(elt)
+                                mpstthree::binary::struct_trait::end::Signal::Offer(#elt_sender)
                             ).unwrap();
 
                         Ok(
-- 
2.43.0


From 4bec4158bf896549557452823484d4d3f139d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 05/26] fix: timed operations accept a window with no upper
 bound

START > END held whenever END was negative (no upper bound), so every
lower-bounded or (-1,-2) window panicked. A blocking receive on such a window
reports a missing sender by panicking, as in the unbounded case.
---
 src/binary_atmp/recv.rs | 12 ++++++------
 src/binary_atmp/send.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index df760ae..5b60d7e 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -33,8 +33,8 @@ where
     T: marker::Send,
     S: Session,
 {
-    // If the start of the time window is after its end, return an error
-    if s.start > s.end {
+    // If the start of the time window is after its end (when there is one), return an error
+    if s.end >= 0 && s.start > s.end {
         panic!("The start of the time window is after its end")
     }
 
@@ -164,7 +164,7 @@ where
                             }
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
@@ -174,7 +174,7 @@ where
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock does not respect the time constraint
@@ -202,7 +202,7 @@ where
                             }
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock respects the time constraint and the clock must not be reset
@@ -212,7 +212,7 @@ where
                             Ok((v, s)) => Ok((v, s)),
                             Err(e) => {
                                 cancel(s);
-                                Err(Box::new(e))
+                                panic!("{}", e.to_string())
                             }
                         }
                     // if the clock does not respect the time constraint
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..324569d 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -34,8 +34,8 @@ where
     T: marker::Send,
     S: Session,
 {
-    // If the start of the time window is after its end, return an error
-    if s.start > s.end {
+    // If the start of the time window is after its end (when there is one), return an error
+    if s.end >= 0 && s.start > s.end {
         cancel(s);
         panic!("The start of the time window is after its end")
     }
-- 
2.43.0


From c23457e0b2635c03e7caf8b7368196f15d137312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 06/26] fix: unbounded timed operations reset the clock they
 declare

---
 src/binary_atmp/recv.rs | 9 ++++++++-
 src/binary_atmp/send.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index 5b60d7e..815aa07 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -130,7 +130,14 @@ where
         } else {
             if !s.include_start && !s.include_end {
                 match s.channel.recv() {
-                    Ok((v, c)) => Ok((v, c)),
+                    Ok((v, c)) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok((v, c))
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 324569d..d00ad4a 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -137,7 +137,14 @@ where
             if !s.include_start && !s.include_end {
                 let (here, there) = S::new();
                 match s.channel.send((x, there)) {
-                    Ok(()) => Ok(here),
+                    Ok(()) => {
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok(here)
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
-- 
2.43.0


From 6bef559cc601ec1b951a8e25f07cdd87f75f2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:19 +0000
Subject: [PATCH 07/26] fix: timed choose_left/choose_right reset their clock
 once every receiver has been notified

---
 .../src/common_functions/expand/choose.rs     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..67e8c15 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1574,7 +1574,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1593,7 +1593,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1602,6 +1602,18 @@ pub(crate) fn choose_atmp(
         })
         .collect();
 
+    // All the receivers get the choice under the same constraint: the clock is reset only once all
+    // of them have been notified
+    let reset_clock = quote! {
+        if RESET != ' ' {
+            if let Some(own_clock) = all_clocks.get_mut(&RESET) {
+                *own_clock = std::time::Instant::now();
+            } else {
+                panic!("The clock {} is not available in {:?}", RESET, all_clocks);
+            }
+        }
+    };
+
     let old_meshedchannels_sender: Vec<TokenStream> = (1..number_roles)
         .map(|j| {
             let new_session_sender =
@@ -1704,6 +1716,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_left
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
@@ -1762,6 +1776,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_right
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
-- 
2.43.0


From 9b3aea65ae9a3288444b5abe9c078d4072f66aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 08/26] fix: cancel_tcp no longer panics when the connection is
 already shut down

Cancelling is documented to always succeed; shutdown fails with
NotConnected when the peer has reset or both ends have shut the stream.
---
 src/transport/tcp/cancel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/tcp/cancel.rs b/src/transport/tcp/cancel.rs
index ef8b16c..941e4ef 100644
--- a/src/transport/tcp/cancel.rs
+++ b/src/transport/tcp/cancel.rs
@@ -39,6 +39,6 @@ use std::net::{Shutdown, TcpStream};
 )]
 pub fn cancel_tcp<T>(s: T, stream: TcpStream) {
     mem::drop(s);
-    stream.shutdown(Shutdown::Both).unwrap();
+    stream.shutdown(Shutdown::Both).unwrap_or(()); // Stop any operation on stream. Cannot fail as stream may already been stopped.
     mem::drop(stream);
 }
-- 
2.43.0


From 1e4994b9a0e41cc60b07134fa5045b01cdbaa1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 09/26] fix: the checker reads payload types and role names
 structurally

Tuple and array payloads were split at their commas, types whose name
contains "Name" were rewritten into roles, and roles with a digit in
their name were cut short.
---
 src/checking/aux_checker.rs | 47 ++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 005431e..7bf0c0d 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -41,32 +41,26 @@ type VecOfTuple = Vec<(String, usize)>;
 /// /!\ Mixing former and new naming: moving from new to former
 #[doc(hidden)]
 pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
-    let mut double_colon_less = session.replace('&', "");
-
     // The main regex expression
-    let double_colon_regex = Regex::new(r"([^<,>\s]+)::([^<,>\s]+)")?;
-
-    // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in double_colon_regex.captures_iter(session) {
-        double_colon_less = double_colon_less.replace(&caps[0], &caps[caps.len() - 1]);
-    }
-
-    // The name regex expression
-    let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
-
-    let mut name_to_role = double_colon_less.clone();
+    let double_colon_regex = Regex::new(r"([^<,>()\[\];\s]+)::([^<,>()\[\];\s]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in name_regex.captures_iter(&double_colon_less) {
-        name_to_role =
-            name_to_role.replace(&caps[0], &format!("Role{}<RoleEnd>", &caps[caps.len() - 1]));
-    }
+    let mut double_colon_less = double_colon_regex
+        .replace_all(&session.replace('&', ""), "$2")
+        .to_string();
 
     // Remove whitespaces
-    name_to_role.retain(|c| !c.is_whitespace());
+    double_colon_less.retain(|c| !c.is_whitespace());
 
     // Get each field of the MeshedChannels
-    let mut full_block = get_blocks(&name_to_role)?;
+    let mut full_block = get_blocks(&double_colon_less)?;
+
+    // Replace the name, which is the last field, by the role -> NameX by RoleX<RoleEnd>
+    if let Some(last_field) = full_block.last_mut() {
+        if let Some(name) = last_field.strip_prefix("Name") {
+            *last_field = format!("Role{name}<RoleEnd>");
+        }
+    }
 
     // Get the name of the role
     let name = full_block[full_block.len() - 1]
@@ -160,6 +154,13 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
 
     for i in full_block.chars() {
         if i == '&' || i.is_whitespace() {
+        } else if (i == '(' || i == '[') && index >= 0 {
+            // The commas within tuples and arrays do not separate fields
+            temp = format!("{temp}{i}");
+            index += 1;
+        } else if (i == ')' || i == ']') && index > 0 {
+            temp = format!("{temp}{i}");
+            index -= 1;
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
             temp = "".to_string();
@@ -321,11 +322,15 @@ pub(crate) fn aux_get_graph(
                         let blocks_right = get_blocks(&choices[2])?;
 
                         // Get the index of the receiver
-                        let receiver =
+                        let head =
                             &get_head_payload_continuation(&blocks_left[blocks_left.len() - 1])?[0];
+                        let receiver = match head.strip_prefix("Name") {
+                            Some(name) => format!("Role{name}"),
+                            None => head.to_string(),
+                        };
 
                         let index_receiver =
-                            if let Some(elt) = roles.iter().position(|r| r == receiver) {
+                            if let Some(elt) = roles.iter().position(|r| *r == receiver) {
                                 elt
                             } else {
                                 panic!("Issue with roles {:?} and receiver {:?}", roles, receiver)
-- 
2.43.0


From ce9681adc7570fddfa84a67a144a02adc5e1a363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 10/26] fix: a protocol accepted by KMC with the largest bound
 is not reported as incorrect

---
 src/checking/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 5d051b4..f67fc90 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -388,14 +388,14 @@ pub fn checker(
             kmc_result = kmc_cli(name_file, kmc_number)?;
         }
 
-        if kmc_number == 50 {
+        if kmc_result.0 {
+            Ok((result, Some(kmc_number)))
+        } else {
             println!(
                 "The protocol does not seem correct. Here is the last output: {:?}",
                 kmc_result.1
             );
             Ok((result, None))
-        } else {
-            Ok((result, Some(kmc_number)))
         }
     } else {
         // Get all the graphs and add them to the result Hashmap
-- 
2.43.0


From 641b6525cf450cbfc6bd364a918e20650289a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 11/26] fix: automata given to KMC resolve recursions at the
 right transition

The last transition written was redirected to the node the recursion goes
back to, which is a transition of another branch whenever the recursion
is the second branch of a choice reached after a communication.
---
 src/checking/aux_checker.rs | 90 ++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 7bf0c0d..768ee1c 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -1,6 +1,7 @@
 #![allow(unused_imports)]
 
 use petgraph::graph::NodeIndex;
+use petgraph::visit::EdgeRef;
 use petgraph::Graph;
 
 use regex::Regex;
@@ -14,7 +15,8 @@ use std::fmt::Write;
 type VecOfStr = Vec<String>;
 type HashMapStrVecOfStr = HashMap<String, VecOfStr>;
 type GraphOfStrStr = Graph<String, String>;
-type VecOfTuple = Vec<(String, usize)>;
+// Transitions: source node, action, target node
+type VecOfTuple = Vec<(usize, String, usize)>;
 
 /// Clean the provided session, which should be stringified.
 ///
@@ -496,14 +498,8 @@ pub(crate) fn aux_get_graph(
                 );
 
                 cfsm.push((
-                    format!(
-                        "{}{} {} ! {} {}",
-                        current_role,
-                        previous_node.index(),
-                        index_head,
-                        &running_session[1],
-                        current_role
-                    ),
+                    previous_node.index(),
+                    format!("{} ! {}", index_head, &running_session[1]),
                     new_node.index(),
                 ));
 
@@ -541,10 +537,6 @@ pub(crate) fn aux_get_graph(
                                 && previous_node != *new_node
                             {
                                 g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                                if let Some(elt) = cfsm.pop() {
-                                    cfsm.push((elt.0, new_node.index()));
-                                }
                             }
                         } else {
                             // If the node was not added
@@ -617,14 +609,8 @@ pub(crate) fn aux_get_graph(
                     );
 
                     cfsm.push((
-                        format!(
-                            "{}{} {} ? {} {}",
-                            current_role,
-                            previous_node.index(),
-                            index_head,
-                            &running_session[1],
-                            current_role
-                        ),
+                        previous_node.index(),
+                        format!("{} ? {}", index_head, &running_session[1]),
                         new_node.index(),
                     ));
 
@@ -700,10 +686,6 @@ pub(crate) fn aux_get_graph(
                 if let Some(new_node) = branches_already_seen.get(&current_branch) {
                     if !g.contains_edge(previous_node, *new_node) && previous_node != *new_node {
                         g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                        if let Some(elt) = cfsm.pop() {
-                            cfsm.push((elt.0, new_node.index()));
-                        }
                     }
                 } else {
                     // If the node was not added
@@ -777,6 +759,60 @@ pub(crate) fn aux_get_graph(
     }
 }
 
+// Resolve the recursions: cfsm do not have any silent transition.
+//
+// A node whose only edge goes back to another node is that other node. A node which can either go
+// back to another node or go on has the transitions of both.
+#[doc(hidden)]
+fn resolve_recursions(g: &GraphOfStrStr, cfsm: VecOfTuple) -> VecOfTuple {
+    let recursions = |node: usize| -> Vec<usize> {
+        g.edges(NodeIndex::new(node))
+            .filter(|edge| edge.weight() == "µ")
+            .map(|edge| edge.target().index())
+            .collect()
+    };
+
+    let resolve = |node: usize| -> usize {
+        let mut current = node;
+        for _ in 0..g.node_count() {
+            match recursions(current)[..] {
+                [target] if g.edges(NodeIndex::new(current)).count() == 1 => current = target,
+                _ => break,
+            }
+        }
+        current
+    };
+
+    let simple_cfsm: VecOfTuple = cfsm
+        .into_iter()
+        .map(|(source, action, target)| (source, action, resolve(target)))
+        .collect();
+
+    let mut result = simple_cfsm.clone();
+
+    for node in g.node_indices().map(|node| node.index()) {
+        if resolve(node) == node {
+            let mut seen = vec![node];
+            let mut reached = recursions(node);
+
+            while let Some(target) = reached.pop().map(resolve) {
+                if !seen.contains(&target) {
+                    seen.push(target);
+                    reached.append(&mut recursions(target));
+
+                    for (source, action, next) in &simple_cfsm {
+                        if *source == target {
+                            result.push((node, action.to_string(), *next));
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    result
+}
+
 // Build the digraphs.
 #[doc(hidden)]
 pub(crate) fn get_graph_session(
@@ -842,9 +878,9 @@ pub(crate) fn get_graph_session(
     let mut cfsm_result = vec![".outputs".to_string(), ".state graph".to_string()];
 
     // Format the tuples into strings and add them to cfsm_result
-    let mut clean_cfsm = cfsm
+    let mut clean_cfsm = resolve_recursions(&result, cfsm)
         .iter()
-        .map(|(s, i)| format!("{s}{i}"))
+        .map(|(s, action, i)| format!("{current_role}{s} {action} {current_role}{i}"))
         .collect::<Vec<String>>();
 
     cfsm_result.append(&mut clean_cfsm);
-- 
2.43.0


From 5bb9f38b630f256c04b11a7548f4d8742ed6676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 12/26] fix: compare the bounds of a time window as numbers,
 and reject empty windows

---
 .../auxiliary_objects/line_is_message.rs      |  7 ++++-
 .../previous_message_wrt_clocks.rs            | 26 +++++++++----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index ec803c6..33f71f8 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -53,7 +53,12 @@ pub(crate) fn update_messages(
     }
 
     // Check if bounds are sound
-    if left_bound > right_bound && (left_bracket == "]" || right_bracket == "[") {
+    let left_bound_value = left_bound.parse::<i128>()?;
+    let right_bound_value = right_bound.parse::<i128>()?;
+
+    if left_bound_value > right_bound_value
+        || (left_bound_value == right_bound_value && (left_bracket == "]" || right_bracket == "["))
+    {
         return Err(format!("The time bounds are not sound in line: {}", line_number).into());
     }
 
diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index a9ab7d0..e021b57 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -5,18 +5,18 @@ pub(crate) fn fn_previous_message_wrt_clocks(
     previous_message_wrt_clocks: &mut HashMap<String, HashMap<String, (String, String)>>,
     elts: &MessageParameters,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if elts.left_bound > elts.right_bound {
+    if elts.left_bound.parse::<i128>()? > elts.right_bound.parse::<i128>()? {
         return Err("Wrong time interval: a left bound is after its related right bound.".into());
     }
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.sender) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>()? + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>()? as i128))
+                && ((elts.right_bound.parse::<i128>()? + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>()? as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
@@ -53,12 +53,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.receiver) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>()? + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>()? as i128))
+                && ((elts.right_bound.parse::<i128>()? + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>()? as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
-- 
2.43.0


From 5745de12f5f0a1a2ee1896529565f4dfc9fa31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:44 +0000
Subject: [PATCH 13/26] fix: a message that resets a clock lifts the previous
 bound of that clock

---
 .../previous_message_wrt_clocks.rs                        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index e021b57..2a1aa81 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -93,5 +93,13 @@ pub(crate) fn fn_previous_message_wrt_clocks(
         previous_message_wrt_clocks.insert(elts.receiver.to_string(), temp_time_bound);
     }
 
+    // Both participants restart the clock that is reset by the message:
+    // its previous time bound does not constrain the following ones
+    for role in [&elts.sender, &elts.receiver] {
+        if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(role) {
+            role_time_bounds.remove(&elts.reset);
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 8c281fd66e96e0940faaed1642ff218d4bf4d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 14/26] fix: the branches of a choice are constrained by the
 time bounds that precede it

---
 .../auxiliary_objects/process_line.rs         | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index ea5264f..a64b39b 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -56,13 +56,14 @@ fn init_sub_tree(
     temp_index: &[i32],
     current_index_string: &str,
     sender: &str,
+    previous_message_wrt_clocks: &HashMap<String, HashMap<String, (String, String)>>,
 ) -> Result<Tree, Box<dyn std::error::Error>> {
     let mut sub_tree = Tree {
         index: temp_index.to_vec(),
         messages_with_payloads: HashMap::new(),
         messages: HashMap::new(),
         first_message: HashMap::new(),
-        previous_message_wrt_clocks: HashMap::new(),
+        previous_message_wrt_clocks: previous_message_wrt_clocks.clone(),
         last_message: HashMap::new(),
         stacks: HashMap::new(),
         first_stack: HashMap::new(),
@@ -238,8 +239,13 @@ pub(crate) fn process_line(
                         .enums
                         .insert(current_index_string.to_string(), (sender.to_string(), 0));
 
-                    let mut sub_tree =
-                        init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    let mut sub_tree = init_sub_tree(
+                        global_elements,
+                        &temp_index,
+                        &current_index_string,
+                        sender,
+                        &main_tree.previous_message_wrt_clocks,
+                    )?;
 
                     for receiver in global_elements.roles.iter() {
                         if receiver != sender {
@@ -353,8 +359,13 @@ pub(crate) fn process_line(
                         .collect::<Vec<_>>()
                         .join("_");
 
-                    let mut sub_tree =
-                        init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    let mut sub_tree = init_sub_tree(
+                        global_elements,
+                        &temp_index,
+                        &current_index_string,
+                        sender,
+                        &parent_tree.previous_message_wrt_clocks,
+                    )?;
 
                     process_line(
                         lines_iter,
-- 
2.43.0


From 7cb70d60733cfc6812c789852ad2c1c3908f8627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 15/26] fix: reject a choice made by an undeclared role instead
 of panicking

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index a64b39b..b4cbcbe 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -219,6 +219,14 @@ pub(crate) fn process_line(
 
                     let sender = &captured_fields["choice"];
 
+                    if !global_elements.roles.contains(&String::from(sender)) {
+                        return Err(format!(
+                            "{} is not in the roles: {:?}. See line: {}.",
+                            sender, global_elements.roles, line_number
+                        )
+                        .into());
+                    }
+
                     let mut temp_index = main_tree.index.clone();
                     temp_index.push(0);
 
-- 
2.43.0


From f7b968d6053d5bdafc46baa05f3d97b471afed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 16/26] fix: accept several spaces between role and its name

---
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 9c0cd1f..4fb7ae1 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -5,7 +5,7 @@ pub(crate) static GLOBAL_PROTOCOL: Lazy<Regex> = Lazy::new(|| {
         .unwrap()
 });
 
-pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role (?P<name>\w+)").unwrap());
+pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role +(?P<name>\w+)").unwrap());
 
 pub(crate) static CHOICE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"choice( +)at( +)(?P<choice>\w+)( *)\{?").unwrap());
-- 
2.43.0


From d77754f57abeadf713b342559f6ebbeac6739607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 17/26] fix: generated endpoints create the clocks that they
 reset

---
 .../auxiliary_objects/line_is_message.rs               | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index 33f71f8..67a2b5c 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -171,5 +171,15 @@ pub(crate) fn update_messages(
         )?;
     }
 
+    // The clock reset by the message must be available to the sender and the receiver
+    if message_parameters.reset != " " {
+        for role in [sender, receiver] {
+            clocks
+                .entry(role.to_string())
+                .or_default()
+                .insert(message_parameters.reset.to_string());
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 726042f14782f7878d956dc4c8eda87afe8fcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:50 +0000
Subject: [PATCH 18/26] fix: choose_atmp! referred to a module that does not
 exist

---
 src/binary_atmp/choose.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/binary_atmp/choose.rs b/src/binary_atmp/choose.rs
index 88f07ec..7932f78 100644
--- a/src/binary_atmp/choose.rs
+++ b/src/binary_atmp/choose.rs
@@ -88,13 +88,15 @@ where
 }
 
 /// Choose between many different sessions wrapped in an
-/// `enum`
+/// `enum`. Like `choose_left` and `choose_right`, returns the
+/// chosen session or the error of the timed send.
 #[macro_export]
 macro_rules! choose_atmp {
     ($label:path, $all_clocks:expr, $session:expr) => {{
         let (here, there) = <_ as mpstthree::binary::struct_trait::session::Session>::new();
-        let s = mpstthree::binary_atmp::send_atmp::send($label(there), $all_clocks, $session);
-        mpstthree::binary::cancel::cancel(s);
-        here
+        mpstthree::binary_atmp::send::send($label(there), $all_clocks, $session).map(|s| {
+            mpstthree::binary::cancel::cancel(s);
+            here
+        })
     }};
 }
-- 
2.43.0


From 3efa76fa568481c8f2ad90cccead87c203e42aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:22 +0000
Subject: [PATCH 19/26] fix: generator returns an error for an input that is
 not readable text instead of panicking

---
 src/top_down_nuscr/generator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index caf31ec..f03608c 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -4,7 +4,7 @@
 //! it needs to have a correctly formatted
 //! *nuscr* protocol.
 
-use std::fs::File;
+use std::fs::{read_to_string, File};
 
 use std::io::{BufRead, BufReader};
 
@@ -50,6 +50,9 @@ pub fn generator(
         sub_trees: vec![],
     };
 
+    // The file must be readable as text: the lines are unwrapped afterwards
+    read_to_string(filepath)?;
+
     if nuscr_check {
         check_fsm(filepath)?;
     }
-- 
2.43.0


From bd30afbcc048fb961f97bf9ffca0b77a29956b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:50 +0000
Subject: [PATCH 20/26] fix: generator rejects lines it does not understand,
 and statements after a choice or the end, instead of dropping them

---
 .../auxiliary_objects/process_line.rs         | 38 ++++++++++++++-----
 .../auxiliary_objects/regex_nuscr.rs          | 19 ++++++++++
 .../generate_regular_protocol.rs              |  3 ++
 src/top_down_nuscr/generator.rs               | 14 ++++++-
 4 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index b4cbcbe..d918d97 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -121,6 +121,25 @@ pub(crate) fn process_line(
     match lines_iter.next() {
         None => Ok(()),
         Some((line_number, line)) => {
+            let line = without_comment(&line).to_string();
+
+            // A line that is not understood must not be ignored
+            if !check_line(&line) {
+                return Err(
+                    format!("Unknown statement: {}. See line: {}", line, line_number).into(),
+                );
+            }
+
+            if line.is_empty() {
+                return process_line(
+                    lines_iter,
+                    global_elements,
+                    parent_tree,
+                    main_tree,
+                    bracket_offset,
+                );
+            }
+
             global_elements.opening_brackets += line.matches('{').count();
             global_elements.closing_brackets += line.matches('}').count();
 
@@ -139,6 +158,15 @@ pub(crate) fn process_line(
             if global_elements.opening_brackets
                 <= global_elements.closing_brackets + *bracket_offset
             {
+                // Nothing can follow a choice or the end of the protocol
+                if !line.chars().all(|c| c == '}' || c.is_whitespace()) {
+                    return Err(format!(
+                        "This statement is outside of the protocol or after a choice: {}. See line: {}",
+                        line, line_number
+                    )
+                    .into());
+                }
+
                 if global_elements.closing_brackets > global_elements.opening_brackets {
                     *bracket_offset =
                         global_elements.closing_brackets - global_elements.opening_brackets - 1;
@@ -147,16 +175,6 @@ pub(crate) fn process_line(
                 return Ok(());
             }
 
-            if line.is_empty() {
-                return process_line(
-                    lines_iter,
-                    global_elements,
-                    parent_tree,
-                    main_tree,
-                    bracket_offset,
-                );
-            }
-
             if check_global(&line) && line_number == 0 {
                 let captured_fields = GLOBAL_PROTOCOL.captures(&line).unwrap();
 
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 4fb7ae1..1a95d4c 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -77,6 +77,25 @@ pub(crate) fn check_rec(input: &str) -> bool {
 pub(crate) fn check_continue(input: &str) -> bool {
     CONTINUE.is_match(input)
 }
+
+// Remove the comment of a line, and the spaces around its content
+pub(crate) fn without_comment(input: &str) -> &str {
+    input.split("//").next().unwrap_or_default().trim()
+}
+
+// Check whether this line, without comment, is only made of one statement or of brackets
+pub(crate) fn check_line(input: &str) -> bool {
+    let statement = input.strip_suffix('{').unwrap_or(input).trim_end();
+
+    input
+        .chars()
+        .all(|c| c == '{' || c == '}' || c.is_whitespace())
+        || [&GLOBAL_PROTOCOL, &CHOICE, &OR, &MESSAGE, &CONTINUE]
+            .iter()
+            .any(|regex| regex.find(input).map(|m| m.as_str()) == Some(input))
+        || REC.find(statement).map(|m| m.as_str()) == Some(statement)
+}
+
 #[cfg(test)]
 mod test_check_generator {
     use super::*;
diff --git a/src/top_down_nuscr/generate_regular_protocol.rs b/src/top_down_nuscr/generate_regular_protocol.rs
index 45c2b6d..215e687 100644
--- a/src/top_down_nuscr/generate_regular_protocol.rs
+++ b/src/top_down_nuscr/generate_regular_protocol.rs
@@ -15,6 +15,9 @@ fn generate_regular_protocol(
     match lines_iter.next() {
         None => Ok(name_protocol),
         Some(line) => {
+            // What is commented is not part of the protocol
+            let line = line.split("//").next().unwrap_or_default().to_string();
+
             if check_global(&line) {
                 let captured_fields = GLOBAL_PROTOCOL.captures(&line).unwrap();
 
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index f03608c..329313d 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -11,7 +11,8 @@ use std::io::{BufRead, BufReader};
 use std::collections::{HashMap, HashSet};
 
 use super::auxiliary_objects::{
-    code_generate::*, process_line::process_line, GlobalElements, Tree,
+    code_generate::*, process_line::process_line, regex_nuscr::without_comment, GlobalElements,
+    Tree,
 };
 use super::generate_regular_protocol::check_fsm;
 
@@ -87,6 +88,17 @@ pub fn generator(
         &mut 0,
     )?;
 
+    // Nothing can follow the end of the protocol
+    if let Some((line_number, line)) =
+        lines_iter.find(|(_, line)| !without_comment(line).is_empty())
+    {
+        return Err(format!(
+            "This statement is outside of the protocol: {}. See line: {}",
+            line, line_number
+        )
+        .into());
+    }
+
     // Check if number of opening and closing brackets are the same
     if global_elements.opening_brackets != global_elements.closing_brackets {
         return Err(
-- 
2.43.0


From b40a3f4c6a8cc7193e8aefbefa8df51584627ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:57 +0000
Subject: [PATCH 21/26] fix: generator accepts the opening bracket of the
 protocol on its own line

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 6 ++++--
 src/top_down_nuscr/generator.rs                      | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index d918d97..f2d74a4 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -155,8 +155,10 @@ pub(crate) fn process_line(
                 return Err("Nested protocols are currently not supported yet.".into());
             }
 
-            if global_elements.opening_brackets
-                <= global_elements.closing_brackets + *bracket_offset
+            // The first line may leave the opening bracket to the next one
+            if line_number > 0
+                && global_elements.opening_brackets
+                    <= global_elements.closing_brackets + *bracket_offset
             {
                 // Nothing can follow a choice or the end of the protocol
                 if !line.chars().all(|c| c == '}' || c.is_whitespace()) {
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index 329313d..0fec700 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -100,7 +100,9 @@ pub fn generator(
     }
 
     // Check if number of opening and closing brackets are the same
-    if global_elements.opening_brackets != global_elements.closing_brackets {
+    if global_elements.opening_brackets != global_elements.closing_brackets
+        || global_elements.opening_brackets == 0
+    {
         return Err(
             "The number of opening and closing brackets is not the same in the end.".into(),
         );
-- 
2.43.0


From ad9d553c04f524e4ab460ff6cb4751006fc70932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:15 +0000
Subject: [PATCH 22/26] fix: generator rejects a continue that is followed by
 statements or that loops without choice, instead of generating another
 protocol

---
 .../auxiliary_objects/process_line.rs          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index f2d74a4..09da540 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -217,6 +217,15 @@ pub(crate) fn process_line(
 
                 init_messages(global_elements, main_tree, "0")?;
             } else if !check_global(&line) && line_number > 0 {
+                // After a continue, the ends of the sessions are already given
+                if !check_or(&line) && main_tree.last_stack.values().any(|s| s.is_empty()) {
+                    return Err(format!(
+                        "Nothing can follow a continue: {}. See line: {}",
+                        line, line_number
+                    )
+                    .into());
+                }
+
                 if check_message(&line) {
                     for (_index, saved_lines) in global_elements.loops.iter_mut() {
                         saved_lines.1.push(line.to_string());
@@ -535,6 +544,15 @@ pub(crate) fn process_line(
                                 break 'outer;
                             }
                         }
+
+                        // Without choice, the loop would be unfolded only once
+                        if !looping_messages.iter().any(|line| check_choice(line)) {
+                            return Err(format!(
+                                "There is a continue in a loop without choice. See line: {}.\nFaulty line: {}",
+                                line_number, line
+                            )
+                            .into());
+                        }
                     } else {
                         return Err(format!(
                             "There is a continue loop without an initialisation. See line: {}.\nFaulty line: {}",
-- 
2.43.0


From 90760bb217ea130b7de04720ad197f52a3121478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:43 +0000
Subject: [PATCH 23/26] fix: generator rejects clocks that are not one
 character and repeated roles, whose programs do not compile

---
 src/top_down_nuscr/auxiliary_objects/line_is_message.rs | 9 +++++++++
 src/top_down_nuscr/auxiliary_objects/process_line.rs    | 6 ++++++
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs     | 2 +-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index 67a2b5c..f17133d 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -52,6 +52,15 @@ pub(crate) fn update_messages(
         .into());
     }
 
+    // Check if clock and reset are clocks: they become `char` parameters
+    if clock.chars().count() != 1 || captured_fields["reset"].chars().count() > 1 {
+        return Err(format!(
+            "The name of a clock must be a single character. See line: {}",
+            line_number
+        )
+        .into());
+    }
+
     // Check if bounds are sound
     let left_bound_value = left_bound.parse::<i128>()?;
     let right_bound_value = right_bound.parse::<i128>()?;
diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 09da540..4306c8f 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -215,6 +215,12 @@ pub(crate) fn process_line(
 
                 global_elements.roles.sort();
 
+                if global_elements.roles.len() < 2
+                    || global_elements.roles.windows(2).any(|w| w[0] == w[1])
+                {
+                    return Err("A protocol needs at least two roles, all different.".into());
+                }
+
                 init_messages(global_elements, main_tree, "0")?;
             } else if !check_global(&line) && line_number > 0 {
                 // After a continue, the ends of the sessions are already given
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 1a95d4c..9fcb4a3 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -13,7 +13,7 @@ pub(crate) static CHOICE: Lazy<Regex> =
 pub(crate) static OR: Lazy<Regex> = Lazy::new(|| Regex::new(r"\}( *)or( *)\{").unwrap());
 
 pub(crate) static MESSAGE: Lazy<Regex> = Lazy::new(|| {
-    Regex::new(r"(?P<message>\w+)\(\w*\)( +)from( +)(?P<sender>\w+)( +)to( +)(?P<receiver>\w+)( +)within( +)(?P<left_bracket>(\[|\]))( *)(?P<left_bound>\d+)( *);( *)(?P<right_bound>\d+)( *)(?P<right_bracket>(\[|\]))( +)using( +)(?P<clock>\w+)( +)and( +)resetting( +)\(\w*\)( *);").unwrap()
+    Regex::new(r"(?P<message>\w+)\(\w*\)( +)from( +)(?P<sender>\w+)( +)to( +)(?P<receiver>\w+)( +)within( +)(?P<left_bracket>(\[|\]))( *)(?P<left_bound>\d+)( *);( *)(?P<right_bound>\d+)( *)(?P<right_bracket>(\[|\]))( +)using( +)(?P<clock>\w+)( +)and( +)resetting( +)\((?P<reset>\w*)\)( *);").unwrap()
 });
 
 pub(crate) static MESSAGE_WITH_PAYLOAD: Lazy<Regex> = Lazy::new(|| {
-- 
2.43.0


From 9d9bc0d39027a46754921f735bc6620b0f6cccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 24/26] fix: generator rejects two messages or payloads that
 would share one generated type

---
 .../auxiliary_objects/line_is_message.rs      | 33 ++++++++++++++++---
 src/top_down_nuscr/auxiliary_objects/mod.rs   |  2 ++
 .../auxiliary_objects/process_line.rs         |  2 ++
 .../auxiliary_objects/regex_nuscr.rs          |  2 +-
 src/top_down_nuscr/generator.rs               |  1 +
 5 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index f17133d..b2c6aec 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -9,6 +9,14 @@ use std::collections::{HashMap, HashSet};
 
 use inflector::Inflector;
 
+/// The name of the type generated for a message or a payload
+fn name_type(name: &str) -> String {
+    name.to_title_case()
+        .chars()
+        .filter(|c| !c.is_whitespace())
+        .collect::<String>()
+}
+
 /// Check when the current line is a message
 pub(crate) fn update_messages(
     line: &str,
@@ -16,6 +24,7 @@ pub(crate) fn update_messages(
     line_number: &usize,
     clocks: &mut HashMap<String, HashSet<String>>,
     payloads: &mut HashSet<String>,
+    labels: &mut HashMap<String, String>,
     main_tree: &mut Tree,
 ) -> Result<(), Box<dyn std::error::Error>> {
     let captured_fields = MESSAGE.captures(line).unwrap();
@@ -61,6 +70,24 @@ pub(crate) fn update_messages(
         .into());
     }
 
+    // Check if the type of the message always has the same payload, and is not the one of a payload
+    let message_type = name_type(message);
+    let payload_type = name_type(&captured_fields["payload"]);
+
+    if labels
+        .insert(message_type.to_string(), payload_type.to_string())
+        .is_some_and(|previous| previous != payload_type)
+        || labels
+            .values()
+            .any(|payload| !payload.is_empty() && labels.contains_key(payload))
+    {
+        return Err(format!(
+            "The types of {}({}) are already used for another message or payload. See line: {}",
+            message, payload_type, line_number
+        )
+        .into());
+    }
+
     // Check if bounds are sound
     let left_bound_value = left_bound.parse::<i128>()?;
     let right_bound_value = right_bound.parse::<i128>()?;
@@ -90,11 +117,7 @@ pub(crate) fn update_messages(
     let mut message_parameters = MessageParameters {
         sender: sender.to_string(),
         receiver: receiver.to_string(),
-        message: message
-            .to_title_case()
-            .chars()
-            .filter(|c| !c.is_whitespace())
-            .collect::<String>(),
+        message: message_type,
         clock: clock.to_string(),
         left_bound: left_bound.to_string(),
         left_bracket: left_bracket.to_string(),
diff --git a/src/top_down_nuscr/auxiliary_objects/mod.rs b/src/top_down_nuscr/auxiliary_objects/mod.rs
index dd72c4c..a7618eb 100644
--- a/src/top_down_nuscr/auxiliary_objects/mod.rs
+++ b/src/top_down_nuscr/auxiliary_objects/mod.rs
@@ -14,6 +14,8 @@ pub(crate) struct GlobalElements {
     // Basic elements
     pub(crate) roles: Vec<String>,
     pub(crate) payloads: HashSet<String>,
+    // Type of the payload of each type of message
+    pub(crate) labels: HashMap<String, String>,
     pub(crate) clocks: HashMap<String, HashSet<String>>,
     // Count loops
     pub(crate) loops: HashMap<String, (String, Vec<String>)>,
diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 4306c8f..77d0a3a 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -243,6 +243,7 @@ pub(crate) fn process_line(
                         &line_number,
                         &mut global_elements.clocks,
                         &mut global_elements.payloads,
+                        &mut global_elements.labels,
                         main_tree,
                     )?;
                 } else if check_choice(&line) {
@@ -458,6 +459,7 @@ pub(crate) fn process_line(
                                     &line_number,
                                     &mut global_elements.clocks,
                                     &mut global_elements.payloads,
+                                    &mut global_elements.labels,
                                     main_tree,
                                 )?;
                             } else if check_choice(saved_line) && do_something {
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 9fcb4a3..1ec06d1 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -13,7 +13,7 @@ pub(crate) static CHOICE: Lazy<Regex> =
 pub(crate) static OR: Lazy<Regex> = Lazy::new(|| Regex::new(r"\}( *)or( *)\{").unwrap());
 
 pub(crate) static MESSAGE: Lazy<Regex> = Lazy::new(|| {
-    Regex::new(r"(?P<message>\w+)\(\w*\)( +)from( +)(?P<sender>\w+)( +)to( +)(?P<receiver>\w+)( +)within( +)(?P<left_bracket>(\[|\]))( *)(?P<left_bound>\d+)( *);( *)(?P<right_bound>\d+)( *)(?P<right_bracket>(\[|\]))( +)using( +)(?P<clock>\w+)( +)and( +)resetting( +)\((?P<reset>\w*)\)( *);").unwrap()
+    Regex::new(r"(?P<message>\w+)\((?P<payload>\w*)\)( +)from( +)(?P<sender>\w+)( +)to( +)(?P<receiver>\w+)( +)within( +)(?P<left_bracket>(\[|\]))( *)(?P<left_bound>\d+)( *);( *)(?P<right_bound>\d+)( *)(?P<right_bracket>(\[|\]))( +)using( +)(?P<clock>\w+)( +)and( +)resetting( +)\((?P<reset>\w*)\)( *);").unwrap()
 });
 
 pub(crate) static MESSAGE_WITH_PAYLOAD: Lazy<Regex> = Lazy::new(|| {
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index 0fec700..53fc31e 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -29,6 +29,7 @@ pub fn generator(
         output: None,
         roles: vec![],
         payloads: HashSet::new(),
+        labels: HashMap::new(),
         clocks: HashMap::new(),
         loops: HashMap::new(),
         opening_brackets: 0,
-- 
2.43.0


From dab6202a0b86805fd6e205f6c9ccd2400b34727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:32 +0000
Subject: [PATCH 25/26] fix: generator rejects names whose types would hide the
 ones of the generated program

---
 .../auxiliary_objects/line_is_message.rs      | 42 +++++++++++++++++++
 .../auxiliary_objects/process_line.rs         | 19 +++++++++
 2 files changed, 61 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index b2c6aec..dbbf864 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -17,6 +17,36 @@ fn name_type(name: &str) -> String {
         .collect::<String>()
 }
 
+// The types that the generated program uses itself
+const USED_TYPES: [&str; 13] = [
+    "Box",
+    "End",
+    "Error",
+    "HashMap",
+    "Instant",
+    "MeshedChannels",
+    "RecvTimed",
+    "Result",
+    "RoleBroadcast",
+    "RoleEnd",
+    "SendTimed",
+    "Self",
+    "String",
+];
+
+// The values that the generated program uses itself
+const USED_VALUES: [&str; 3] = ["Err", "Ok", "Some"];
+
+/// Check whether the generated program can define a type with this name
+fn is_available(name: &str, is_unit: bool, roles: &[String]) -> bool {
+    !name.starts_with(char::is_numeric)
+        && !USED_TYPES.contains(&name)
+        && !(is_unit && USED_VALUES.contains(&name))
+        && !roles
+            .iter()
+            .any(|role| name == format!("Role{role}") || name == format!("Name{role}"))
+}
+
 /// Check when the current line is a message
 pub(crate) fn update_messages(
     line: &str,
@@ -88,6 +118,18 @@ pub(crate) fn update_messages(
         .into());
     }
 
+    if message_type.is_empty()
+        || payload_type.is_empty() != captured_fields["payload"].is_empty()
+        || !is_available(&message_type, payload_type.is_empty(), roles)
+        || !is_available(&payload_type, true, roles)
+    {
+        return Err(format!(
+            "The types of {}({}) would hide the ones of the library. See line: {}",
+            message, payload_type, line_number
+        )
+        .into());
+    }
+
     // Check if bounds are sound
     let left_bound_value = left_bound.parse::<i128>()?;
     let right_bound_value = right_bound.parse::<i128>()?;
diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 77d0a3a..f04ae99 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -221,6 +221,25 @@ pub(crate) fn process_line(
                     return Err("A protocol needs at least two roles, all different.".into());
                 }
 
+                // The names of the roles become parts of the names of types and functions
+                for role in global_elements.roles.iter() {
+                    if ["All", "Broadcast", "End"].contains(&role.as_str())
+                        || role.starts_with(char::is_numeric)
+                        || global_elements.roles.iter().any(|other| {
+                            (other != role && other.to_lowercase() == role.to_lowercase())
+                                || *other == format!("{role}Dual")
+                                || *other == format!("{role}toAll")
+                                || *other == format!("Allto{role}")
+                        })
+                    {
+                        return Err(format!(
+                            "The name of the role {} can not be used in {:?}.",
+                            role, global_elements.roles
+                        )
+                        .into());
+                    }
+                }
+
                 init_messages(global_elements, main_tree, "0")?;
             } else if !check_global(&line) && line_number > 0 {
                 // After a continue, the ends of the sessions are already given
-- 
2.43.0


From f05f8e3a6575f79e3d0c3bcbe85f8939331fa591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:52 +0000
Subject: [PATCH 26/26] fix: generator rejects statements after a choice inside
 of a loop, and accepts the brackets which close loops

---
 src/top_down_nuscr/auxiliary_objects/mod.rs     |  2 ++
 .../auxiliary_objects/process_line.rs           | 17 ++++++++++++++---
 src/top_down_nuscr/generator.rs                 |  1 +
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/mod.rs b/src/top_down_nuscr/auxiliary_objects/mod.rs
index a7618eb..2850d08 100644
--- a/src/top_down_nuscr/auxiliary_objects/mod.rs
+++ b/src/top_down_nuscr/auxiliary_objects/mod.rs
@@ -22,6 +22,8 @@ pub(crate) struct GlobalElements {
     // Brackets
     pub(crate) opening_brackets: usize,
     pub(crate) closing_brackets: usize,
+    // Number of open brackets around the current choice
+    pub(crate) choice_depth: usize,
 }
 
 pub(crate) struct MessageParameters {
diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index f04ae99..9f13d55 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -242,10 +242,18 @@ pub(crate) fn process_line(
 
                 init_messages(global_elements, main_tree, "0")?;
             } else if !check_global(&line) && line_number > 0 {
-                // After a continue, the ends of the sessions are already given
-                if !check_or(&line) && main_tree.last_stack.values().any(|s| s.is_empty()) {
+                // After a continue, the ends of the sessions are already given,
+                // and after a choice there is no branch to add the statement to
+                if !check_or(&line)
+                    && line.chars().any(|c| !"{}".contains(c) && !c.is_whitespace())
+                    && (main_tree.last_stack.values().any(|s| s.is_empty())
+                        || (*bracket_offset > 0
+                            && global_elements.opening_brackets - line.matches('{').count()
+                                <= global_elements.closing_brackets
+                                    + global_elements.choice_depth))
+                {
                     return Err(format!(
-                        "Nothing can follow a continue: {}. See line: {}",
+                        "Nothing can follow a continue or a choice: {}. See line: {}",
                         line, line_number
                     )
                     .into());
@@ -384,6 +392,9 @@ pub(crate) fn process_line(
                     }
 
                     *bracket_offset += 1;
+                    global_elements.choice_depth = global_elements.opening_brackets
+                        - line.matches('{').count()
+                        - global_elements.closing_brackets;
 
                     process_line(
                         lines_iter,
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index 53fc31e..0b495b1 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -34,6 +34,7 @@ pub fn generator(
         loops: HashMap::new(),
         opening_brackets: 0,
         closing_brackets: 0,
+        choice_depth: 0,
     };
 
     // Running elements
-- 
2.43.0

