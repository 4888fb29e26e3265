From b91935f05ee70d27f3e8c380ac8d83d880b8b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:30 +0000
Subject: [PATCH 01/24] fix: drop the previous session in offer_cancel_mpst

The session used to announce the new broadcaster channel was shadowed
instead of being dropped, so its channel kept the announcement alive
after the broadcaster was gone and the closing role blocked forever.
---
 mpst_seq_proc/src/baking/baking_with_cancel.rs | 2 +-
 src/macros_multiple/offer.rs                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/baking/baking_with_cancel.rs b/mpst_seq_proc/src/baking/baking_with_cancel.rs
index d80a96f..6a30048 100644
--- a/mpst_seq_proc/src/baking/baking_with_cancel.rs
+++ b/mpst_seq_proc/src/baking/baking_with_cancel.rs
@@ -185,7 +185,7 @@ impl BakingWithCancel {
                 ($session: expr, { $( $pat: pat => $result: expr, )+ }) => {
                     (move || -> Result<_, _> {
                         let ((session1, cont), s) = $session.recv()?;
-                        let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+                        s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
                         mpstthree::binary::cancel::cancel(s);
                         match cont {
                             $(
diff --git a/src/macros_multiple/offer.rs b/src/macros_multiple/offer.rs
index cc76ade..226f40e 100644
--- a/src/macros_multiple/offer.rs
+++ b/src/macros_multiple/offer.rs
@@ -200,7 +200,7 @@ macro_rules! offer_cancel_mpst {
     ($session: expr, $recv_mpst: ident, { $( $pat: pat => $result: expr, )+ }) => {
         (move || -> Result<_, _> {
             let ((session1, cont), s) = $recv_mpst($session)?;
-            let s = s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
+            s.session1.sender.send(mpstthree::binary::struct_trait::end::Signal::Offer(session1)).unwrap();
             mpstthree::binary::cancel::cancel(s);
             match cont {
                 $(
-- 
2.43.0


From af18a0b5df2199f036f262030ea62a820f5c1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:52 +0000
Subject: [PATCH 02/24] fix: broadcaster stops when a supervised participant
 disappears

---
 .../src/macros_multiple/multiple/broadcast_cancel.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
index e051f14..273eaf1 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
@@ -82,6 +82,11 @@ impl BroadcastCancel {
                                 Ok(mpstthree::binary::struct_trait::end::Signal::Offer(channel)) => {
                                     s.#field_session = channel;
                                 }
+                                Err(e) if #bool_session && e.is_disconnected() => {
+                                    #send_sessions
+                                    mpstthree::binary::cancel::cancel(s);
+                                    panic!("Error");
+                                }
                                 _ => {}
                             };
                         )*
-- 
2.43.0


From d7a222b99702248ccf574a0eaf1a1e11c7e73a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:55 +0000
Subject: [PATCH 03/24] fix: reset the clock of a timed choice only after
 informing every role

---
 .../src/common_functions/expand/choose.rs      | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..3465a41 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1573,8 +1573,15 @@ pub(crate) fn choose_atmp(
 
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
+            // The clock must be reset only once everyone has been informed
+            let send_function = if j < number_roles - 1 {
+                quote! { mpstthree::binary_atmp::send::send_without_reset }
+            } else {
+                quote! { mpstthree::binary_atmp::send::send }
+            };
+
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = #send_function(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1592,8 +1599,15 @@ pub(crate) fn choose_atmp(
 
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
+            // The clock must be reset only once everyone has been informed
+            let send_function = if j < number_roles - 1 {
+                quote! { mpstthree::binary_atmp::send::send_without_reset }
+            } else {
+                quote! { mpstthree::binary_atmp::send::send }
+            };
+
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = #send_function(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
-- 
2.43.0


From c2700b2946dbc86b339645685df8f6f9ba76d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:55 +0000
Subject: [PATCH 04/24] fix: cancel_tcp no longer panics when the connection is
 already lost

---
 src/transport/tcp/cancel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport/tcp/cancel.rs b/src/transport/tcp/cancel.rs
index ef8b16c..20b8069 100644
--- a/src/transport/tcp/cancel.rs
+++ b/src/transport/tcp/cancel.rs
@@ -39,6 +39,6 @@ use std::net::{Shutdown, TcpStream};
 )]
 pub fn cancel_tcp<T>(s: T, stream: TcpStream) {
     mem::drop(s);
-    stream.shutdown(Shutdown::Both).unwrap();
+    stream.shutdown(Shutdown::Both).unwrap_or(()); // Cannot fail as stream may already been stopped.
     mem::drop(stream);
 }
-- 
2.43.0


From ac447d140ed9ae00802cb8090cc8efc868f38e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:45 +0000
Subject: [PATCH 05/24] fix: keep tuples and arrays in exported payloads in one
 piece

---
 src/checking/aux_checker.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 005431e..571ede3 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -44,12 +44,12 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
     let mut double_colon_less = session.replace('&', "");
 
     // The main regex expression
-    let double_colon_regex = Regex::new(r"([^<,>\s]+)::([^<,>\s]+)")?;
+    let double_colon_regex = Regex::new(r"([^<,>()\[\];\s]+)::([^<,>()\[\];\s]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in double_colon_regex.captures_iter(session) {
-        double_colon_less = double_colon_less.replace(&caps[0], &caps[caps.len() - 1]);
-    }
+    double_colon_less = double_colon_regex
+        .replace_all(&double_colon_less, "$2")
+        .to_string();
 
     // The name regex expression
     let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
@@ -158,7 +158,16 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
     // Start at -1 because we want to remove the first `<` and the term before
     let mut index = -1;
 
+    // The depth of tuples and arrays, whose commas do not separate fields
+    let mut brackets = 0;
+
     for i in full_block.chars() {
+        match i {
+            '(' | '[' => brackets += 1,
+            ')' | ']' => brackets -= 1,
+            _ => {}
+        }
+
         if i == '&' || i.is_whitespace() {
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
@@ -169,7 +178,7 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
         } else if i == '>' && index >= 0 {
             temp = format!("{temp}{i}");
             index -= 1;
-        } else if i == ',' && index == 0 {
+        } else if i == ',' && index == 0 && brackets == 0 {
             result.push(temp);
             temp = "".to_string();
         } else if index >= 0 {
-- 
2.43.0


From ff8a015d2f1630f823fcb59b656617956f688efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:45 +0000
Subject: [PATCH 06/24] fix: export roles whose name holds digits or begins
 another one

---
 src/checking/aux_checker.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 571ede3..7baaeb2 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -52,15 +52,12 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
         .to_string();
 
     // The name regex expression
-    let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
+    let name_regex = Regex::new(r",\s*Name(\w+)>")?;
 
-    let mut name_to_role = double_colon_less.clone();
-
-    // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in name_regex.captures_iter(&double_colon_less) {
-        name_to_role =
-            name_to_role.replace(&caps[0], &format!("Role{}<RoleEnd>", &caps[caps.len() - 1]));
-    }
+    // Replace with regex expression -> the last field NameX by RoleX<RoleEnd>
+    let mut name_to_role = name_regex
+        .replace_all(&double_colon_less, ",Role$1<RoleEnd>>")
+        .to_string();
 
     // Remove whitespaces
     name_to_role.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 6c049f60a7ca639b3694993497857ba4a3eb1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:48 +0000
Subject: [PATCH 07/24] fix: keep every loop of nested choices in the exported
 automata

---
 src/checking/aux_checker.rs | 74 ++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 9 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 7baaeb2..5f21d7e 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -542,10 +542,6 @@ pub(crate) fn aux_get_graph(
                                 && previous_node != *new_node
                             {
                                 g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                                if let Some(elt) = cfsm.pop() {
-                                    cfsm.push((elt.0, new_node.index()));
-                                }
                             }
                         } else {
                             // If the node was not added
@@ -701,10 +697,6 @@ pub(crate) fn aux_get_graph(
                 if let Some(new_node) = branches_already_seen.get(&current_branch) {
                     if !g.contains_edge(previous_node, *new_node) && previous_node != *new_node {
                         g.add_edge(previous_node, *new_node, "µ".to_string());
-
-                        if let Some(elt) = cfsm.pop() {
-                            cfsm.push((elt.0, new_node.index()));
-                        }
                     }
                 } else {
                     // If the node was not added
@@ -778,6 +770,70 @@ pub(crate) fn aux_get_graph(
     }
 }
 
+// Move the transitions of the cfsm according to the "µ" edges of the graph, which have no
+// counterpart in the cfsm: a node with nothing but a "µ" edge is replaced with its target,
+// and a node with other edges too gets the transitions of the nodes it can silently reach.
+#[doc(hidden)]
+pub(crate) fn remove_silent_edges(
+    current_role: &str,
+    g: &GraphOfStrStr,
+    cfsm: VecOfTuple,
+) -> VecOfTuple {
+    let silent_targets = |node: usize| {
+        g.raw_edges()
+            .iter()
+            .filter(|edge| edge.source().index() == node && edge.weight == "µ")
+            .map(|edge| edge.target().index())
+            .collect::<Vec<_>>()
+    };
+
+    let mut result = VecOfTuple::new();
+
+    for (transition, target) in cfsm.iter() {
+        let mut target = *target;
+
+        while let ([next], 1) = (
+            silent_targets(target).as_slice(),
+            g.edges(NodeIndex::new(target)).count(),
+        ) {
+            target = *next;
+        }
+
+        result.push((transition.to_string(), target));
+    }
+
+    for node in 0..g.node_count() {
+        if g.edges(NodeIndex::new(node)).count() < 2 {
+            continue;
+        }
+
+        // The nodes that can be silently reached
+        let mut reached = vec![node];
+        let mut index = 0;
+
+        while index < reached.len() {
+            for next in silent_targets(reached[index]) {
+                if !reached.contains(&next) {
+                    reached.push(next);
+                }
+            }
+            index += 1;
+        }
+
+        for source in &reached[1..] {
+            let prefix = format!("{current_role}{source} ");
+
+            for index in 0..cfsm.len() {
+                if let Some(action) = cfsm[index].0.strip_prefix(&prefix) {
+                    result.push((format!("{current_role}{node} {action}"), result[index].1));
+                }
+            }
+        }
+    }
+
+    result
+}
+
 // Build the digraphs.
 #[doc(hidden)]
 pub(crate) fn get_graph_session(
@@ -843,7 +899,7 @@ pub(crate) fn get_graph_session(
     let mut cfsm_result = vec![".outputs".to_string(), ".state graph".to_string()];
 
     // Format the tuples into strings and add them to cfsm_result
-    let mut clean_cfsm = cfsm
+    let mut clean_cfsm = remove_silent_edges(current_role, &result, cfsm)
         .iter()
         .map(|(s, i)| format!("{s}{i}"))
         .collect::<Vec<String>>();
-- 
2.43.0


From fb3ec7fe32f771f2e0648d1807ebfd94f5df8629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 08/24] fix: report the bound 50 when the tool accepts it

---
 src/checking/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 5d051b4..0e4b99c 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -388,7 +388,7 @@ pub fn checker(
             kmc_result = kmc_cli(name_file, kmc_number)?;
         }
 
-        if kmc_number == 50 {
+        if !kmc_result.0 {
             println!(
                 "The protocol does not seem correct. Here is the last output: {:?}",
                 kmc_result.1
-- 
2.43.0


From 3071e0a979747df78c17cde62697299085a9b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:46 +0000
Subject: [PATCH 09/24] fix: report a failed run of the tool instead of taking
 it as acceptance

---
 src/checking/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 0e4b99c..5b7495a 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -285,6 +285,14 @@ pub(crate) fn kmc_cli(name_file: &str, kmc_number: i32) -> Result<(bool, String)
 
     if stdout.contains("False") {
         Ok((false, stdout))
+    } else if !kmc.status.success() {
+        // The tool did not finish: it neither accepted nor rejected the protocol
+        Err(format!(
+            "KMC failed: {}: {}",
+            kmc.status,
+            String::from_utf8_lossy(&kmc.stderr)
+        )
+        .into())
     } else {
         // Write down the stdout of the previous command into
         // a corresponding file in the "outputs" folder
-- 
2.43.0


From 380352fba39f784b062b7d98578b1d4c4129bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 10/24] fix: compare the bounds of nuscr time windows as
 numbers

---
 .../auxiliary_objects/line_is_message.rs      |  4 ++-
 .../previous_message_wrt_clocks.rs            | 26 +++++++++----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index ec803c6..1dfdceb 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -53,7 +53,9 @@ pub(crate) fn update_messages(
     }
 
     // Check if bounds are sound
-    if left_bound > right_bound && (left_bracket == "]" || right_bracket == "[") {
+    if left_bound.parse::<i128>()? > right_bound.parse::<i128>()?
+        && (left_bracket == "]" || right_bracket == "[")
+    {
         return Err(format!("The time bounds are not sound in line: {}", line_number).into());
     }
 
diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index a9ab7d0..abedda8 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -5,18 +5,18 @@ pub(crate) fn fn_previous_message_wrt_clocks(
     previous_message_wrt_clocks: &mut HashMap<String, HashMap<String, (String, String)>>,
     elts: &MessageParameters,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if elts.left_bound > elts.right_bound {
+    if elts.left_bound.parse::<i128>()? > elts.right_bound.parse::<i128>()? {
         return Err("Wrong time interval: a left bound is after its related right bound.".into());
     }
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.sender) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>()? + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>().unwrap() as i128))
+                && ((elts.right_bound.parse::<i128>()? + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>().unwrap() as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
@@ -53,12 +53,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.receiver) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>()? + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>()?
+                    + previous_time_bound.1.parse::<bool>().unwrap() as i128))
+                && ((elts.right_bound.parse::<i128>()? + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>()?
+                        + previous_time_bound.1.parse::<bool>().unwrap() as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
-- 
2.43.0


From 08aefd26d7cbbcd15d3947523076f25df528d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:45 +0000
Subject: [PATCH 11/24] fix: a reset clock does not constrain the next nuscr
 messages

---
 .../previous_message_wrt_clocks.rs                         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index abedda8..b46fcca 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -93,5 +93,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
         previous_message_wrt_clocks.insert(elts.receiver.to_string(), temp_time_bound);
     }
 
+    // A clock that is reset does not constrain the next messages anymore
+    for role in [&elts.sender, &elts.receiver] {
+        if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(role) {
+            role_time_bounds.remove(&elts.reset);
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 376b54b4822fb87cc4bfca536e261867788d65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 12/24] fix: time windows after a nuscr choice must be feasible
 after those before it

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index ea5264f..499d0a8 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -240,6 +240,8 @@ pub(crate) fn process_line(
 
                     let mut sub_tree =
                         init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    sub_tree.previous_message_wrt_clocks =
+                        main_tree.previous_message_wrt_clocks.clone();
 
                     for receiver in global_elements.roles.iter() {
                         if receiver != sender {
@@ -355,6 +357,8 @@ pub(crate) fn process_line(
 
                     let mut sub_tree =
                         init_sub_tree(global_elements, &temp_index, &current_index_string, sender)?;
+                    sub_tree.previous_message_wrt_clocks =
+                        parent_tree.previous_message_wrt_clocks.clone();
 
                     process_line(
                         lines_iter,
-- 
2.43.0


From a40316587b8d8dda8f4b63c0fabf32cc9ceb4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:47 +0000
Subject: [PATCH 13/24] fix: refuse nuscr interactions after a choice instead
 of losing them, and brackets after the end

---
 .../auxiliary_objects/process_line.rs         | 51 ++++++++++++++++---
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 499d0a8..8c7f632 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -107,6 +107,24 @@ fn init_sub_tree(
     Ok(sub_tree)
 }
 
+/// There can be no interaction after the end of a choice or of the protocol
+fn check_nothing_left(line: &str, line_number: usize) -> Result<(), Box<dyn std::error::Error>> {
+    if check_message(line)
+        || check_choice(line)
+        || check_or(line)
+        || check_rec(line)
+        || check_continue(line)
+    {
+        Err(format!(
+            "Interactions after a choice are currently not supported yet. See line: {}",
+            line_number
+        )
+        .into())
+    } else {
+        Ok(())
+    }
+}
+
 pub(crate) fn process_line(
     lines_iter: &mut Map<
         Enumerate<Lines<BufReader<File>>>,
@@ -131,16 +149,25 @@ pub(crate) fn process_line(
                 .into());
             }
 
-            if *bracket_offset > 1 {
-                return Err("Nested protocols are currently not supported yet.".into());
-            }
-
+            // The protocol, or the last branch of its choice, is over
             if global_elements.opening_brackets
                 <= global_elements.closing_brackets + *bracket_offset
             {
-                if global_elements.closing_brackets > global_elements.opening_brackets {
-                    *bracket_offset =
-                        global_elements.closing_brackets - global_elements.opening_brackets - 1;
+                check_nothing_left(&line, line_number)?;
+
+                for (line_number, line) in lines_iter.by_ref() {
+                    global_elements.opening_brackets += line.matches('{').count();
+                    global_elements.closing_brackets += line.matches('}').count();
+
+                    if global_elements.opening_brackets < global_elements.closing_brackets {
+                        return Err(format!(
+                            "There are too many closing brackets. See line: {}",
+                            line_number
+                        )
+                        .into());
+                    }
+
+                    check_nothing_left(&line, line_number)?;
                 }
 
                 return Ok(());
@@ -210,6 +237,10 @@ pub(crate) fn process_line(
                         main_tree,
                     )?;
                 } else if check_choice(&line) {
+                    if main_tree.index.len() > 1 {
+                        return Err("Nested protocols are currently not supported yet.".into());
+                    }
+
                     for (_index, saved_lines) in global_elements.loops.iter_mut() {
                         saved_lines.1.push(line.to_string());
                     }
@@ -316,7 +347,11 @@ pub(crate) fn process_line(
                         }
                     }
 
-                    *bracket_offset += 1;
+                    // The choice is over when its last branch is closed
+                    *bracket_offset = global_elements
+                        .opening_brackets
+                        .saturating_sub(global_elements.closing_brackets)
+                        .saturating_sub(line.matches('{').count());
 
                     process_line(
                         lines_iter,
-- 
2.43.0


From 40c13e440faf6b154ff88b4228ff6015fd6280b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:47 +0000
Subject: [PATCH 14/24] fix: report a nuscr choice at an unknown role as an
 error

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 8c7f632..3a16548 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -249,6 +249,14 @@ pub(crate) fn process_line(
 
                     let sender = &captured_fields["choice"];
 
+                    if !global_elements.roles.contains(&String::from(sender)) {
+                        return Err(format!(
+                            "{} is not in the roles: {:?}. See line: {}.",
+                            sender, global_elements.roles, line_number
+                        )
+                        .into());
+                    }
+
                     let mut temp_index = main_tree.index.clone();
                     temp_index.push(0);
 
-- 
2.43.0


From 3736bb5eb078e1b406510d9986cbc18706329eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 15/24] fix: refuse nuscr loops without a choice instead of
 unrolling them once

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 3a16548..8c2a8f4 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -438,6 +438,7 @@ pub(crate) fn process_line(
                         .get_mut(&(captured_fields["loop"].to_string()))
                     {
                         let mut do_something = false;
+                        let mut found_choice = false;
 
                         'outer: for saved_line in looping_messages.iter() {
                             if check_rec(saved_line)
@@ -540,9 +541,19 @@ pub(crate) fn process_line(
                                     }
                                 }
 
+                                found_choice = true;
+
                                 break 'outer;
                             }
                         }
+
+                        if !found_choice {
+                            return Err(format!(
+                                "Loops without a choice are currently not supported yet. See line: {}",
+                                line_number
+                            )
+                            .into());
+                        }
                     } else {
                         return Err(format!(
                             "There is a continue loop without an initialisation. See line: {}.\nFaulty line: {}",
-- 
2.43.0


From f5b8a7d6e1923e8463ef9cf6e81acafcd3903b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:22 +0000
Subject: [PATCH 16/24] fix: accept the nuscr headers the grammar allows: brace
 on the next line, spaces before roles

---
 src/top_down_nuscr/auxiliary_objects/process_line.rs | 5 +++--
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs  | 2 +-
 src/top_down_nuscr/generator.rs                      | 4 +++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 8c2a8f4..51eda0c 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -150,8 +150,9 @@ pub(crate) fn process_line(
             }
 
             // The protocol, or the last branch of its choice, is over
-            if global_elements.opening_brackets
-                <= global_elements.closing_brackets + *bracket_offset
+            if global_elements.opening_brackets > 0
+                && global_elements.opening_brackets
+                    <= global_elements.closing_brackets + *bracket_offset
             {
                 check_nothing_left(&line, line_number)?;
 
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 9c0cd1f..4fb7ae1 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -5,7 +5,7 @@ pub(crate) static GLOBAL_PROTOCOL: Lazy<Regex> = Lazy::new(|| {
         .unwrap()
 });
 
-pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role (?P<name>\w+)").unwrap());
+pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role +(?P<name>\w+)").unwrap());
 
 pub(crate) static CHOICE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"choice( +)at( +)(?P<choice>\w+)( *)\{?").unwrap());
diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index caf31ec..2a4e1de 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -85,7 +85,9 @@ pub fn generator(
     )?;
 
     // Check if number of opening and closing brackets are the same
-    if global_elements.opening_brackets != global_elements.closing_brackets {
+    if global_elements.opening_brackets != global_elements.closing_brackets
+        || global_elements.opening_brackets == 0
+    {
         return Err(
             "The number of opening and closing brackets is not the same in the end.".into(),
         );
-- 
2.43.0


From 7f8dfcae2ceb6f519ca9373b75b12b266bf394ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:26 +0000
Subject: [PATCH 17/24] fix: generated endpoints also own the clocks they only
 reset

---
 .../auxiliary_objects/line_is_message.rs         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index 1dfdceb..b1fa6e0 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -104,6 +104,14 @@ pub(crate) fn update_messages(
 
         message_parameters.reset = reset.to_string();
 
+        // Sender and receiver also own the clock they reset
+        for role in [sender, receiver] {
+            clocks
+                .entry(role.to_string())
+                .or_default()
+                .insert(reset.to_string());
+        }
+
         messages_and_stacks(
             &main_tree.index,
             &mut main_tree.messages,
@@ -124,6 +132,14 @@ pub(crate) fn update_messages(
 
         message_parameters.reset = reset.to_string();
 
+        // Sender and receiver also own the clock they reset
+        for role in [sender, receiver] {
+            clocks
+                .entry(role.to_string())
+                .or_default()
+                .insert(reset.to_string());
+        }
+
         messages_and_stacks(
             &main_tree.index,
             &mut main_tree.messages,
-- 
2.43.0


From 4a00c9f08f1ced40e3f58736bcfd51b0d4ee7a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 18/24] fix: remove the temporary nuscr file after errors too,
 and refuse what a failing nuscr prints

---
 src/top_down_nuscr/generate_regular_protocol.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/top_down_nuscr/generate_regular_protocol.rs b/src/top_down_nuscr/generate_regular_protocol.rs
index 45c2b6d..d87cda6 100644
--- a/src/top_down_nuscr/generate_regular_protocol.rs
+++ b/src/top_down_nuscr/generate_regular_protocol.rs
@@ -76,6 +76,15 @@ fn generate_regular_protocol(
     }
 }
 
+/// A file which is removed in every case, errors and panics included
+struct TemporaryFile<'a>(&'a str);
+
+impl Drop for TemporaryFile<'_> {
+    fn drop(&mut self) {
+        let _ = remove_file(self.0);
+    }
+}
+
 pub(crate) fn check_fsm(filepath: &str) -> Result<(), Box<dyn std::error::Error>> {
     // Iterator over the lines of the input file
     // Ccheck that the protocol is sound, nuscr-wise
@@ -94,6 +103,7 @@ pub(crate) fn check_fsm(filepath: &str) -> Result<(), Box<dyn std::error::Error>
     );
 
     let mut output_file = File::create(&name_file)?;
+    let temporary_file = TemporaryFile(&name_file);
 
     let name_protocol =
         generate_regular_protocol(&mut lines_iter, &mut output_file, "".to_string())?;
@@ -110,9 +120,9 @@ pub(crate) fn check_fsm(filepath: &str) -> Result<(), Box<dyn std::error::Error>
             .output()?
     };
 
-    remove_file(&name_file)?;
+    drop(temporary_file);
 
-    if output.stdout.is_empty() {
+    if !output.status.success() || output.stdout.is_empty() {
         return Err(format!(
             "There was an issue with the {} nuscr protocol.",
             name_protocol
-- 
2.43.0


From 4861547e2291a5270e410458fea5dd3310a8010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 19/24] fix: accept an empty line between a nuscr choice and
 its bracket

---
 .../auxiliary_objects/process_line.rs         | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 51eda0c..8a64b7d 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -149,6 +149,16 @@ pub(crate) fn process_line(
                 .into());
             }
 
+            if line.is_empty() {
+                return process_line(
+                    lines_iter,
+                    global_elements,
+                    parent_tree,
+                    main_tree,
+                    bracket_offset,
+                );
+            }
+
             // The protocol, or the last branch of its choice, is over
             if global_elements.opening_brackets > 0
                 && global_elements.opening_brackets
@@ -174,16 +184,6 @@ pub(crate) fn process_line(
                 return Ok(());
             }
 
-            if line.is_empty() {
-                return process_line(
-                    lines_iter,
-                    global_elements,
-                    parent_tree,
-                    main_tree,
-                    bracket_offset,
-                );
-            }
-
             if check_global(&line) && line_number == 0 {
                 let captured_fields = GLOBAL_PROTOCOL.captures(&line).unwrap();
 
-- 
2.43.0


From 30867c546b3d64db900afdcb2c1d71e0e8076bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:28 +0000
Subject: [PATCH 20/24] fix: refuse an inconsistent window in the timed send
 that resets no clock

---
 src/binary_atmp/send.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..969d1f8 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -444,6 +444,12 @@ where
     T: marker::Send,
     S: Session,
 {
+    // If the start of the time window is after its end, return an error
+    if s.start > s.end {
+        cancel(s);
+        panic!("The start of the time window is after its end")
+    }
+
     // if there is no lower bound
     if s.start < 0 {
         // if there is an upper bound
-- 
2.43.0


From b5f9e3bd9cf77ddd2a83b3fd6e38ca9f77f247cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:07 +0000
Subject: [PATCH 21/24] fix: erase only the keyword "timed" from the header
 sent to nuscr

Every "timed " of the header was erased, so a role whose name ends with
"timed" and is followed by a space lost it.
---
 src/top_down_nuscr/generate_regular_protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/generate_regular_protocol.rs b/src/top_down_nuscr/generate_regular_protocol.rs
index d87cda6..7529a9c 100644
--- a/src/top_down_nuscr/generate_regular_protocol.rs
+++ b/src/top_down_nuscr/generate_regular_protocol.rs
@@ -20,7 +20,7 @@ fn generate_regular_protocol(
 
                 name_protocol = captured_fields["name"].to_string();
 
-                writeln!(file, "{}", line.replace("timed ", ""))?;
+                writeln!(file, "{}", line.replacen("timed ", "", 1))?;
             } else if check_message(&line) {
                 let starting_spaces = line
                     .chars()
-- 
2.43.0


From 80eb42113189ab8fb5301bd9cf73f3688c4b913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:36 +0000
Subject: [PATCH 22/24] fix: read function types and names ending in NameX
 inside payloads when exporting automata

---
 src/checking/aux_checker.rs | 42 ++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 5f21d7e..71f6dac 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -51,13 +51,8 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
         .replace_all(&double_colon_less, "$2")
         .to_string();
 
-    // The name regex expression
-    let name_regex = Regex::new(r",\s*Name(\w+)>")?;
-
-    // Replace with regex expression -> the last field NameX by RoleX<RoleEnd>
-    let mut name_to_role = name_regex
-        .replace_all(&double_colon_less, ",Role$1<RoleEnd>>")
-        .to_string();
+    // Replace the last field NameX of each MeshedChannels by RoleX<RoleEnd>
+    let mut name_to_role = names_to_roles(&double_colon_less);
 
     // Remove whitespaces
     name_to_role.retain(|c| !c.is_whitespace());
@@ -78,6 +73,31 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
     Ok(full_block)
 }
 
+// Replace the last field NameX of each MeshedChannels by RoleX<RoleEnd>, but not the
+// parameters of the payloads.
+fn names_to_roles(session: &str) -> String {
+    let mut result = String::new();
+
+    // For each open `<`, whether it belongs to a MeshedChannels
+    let mut opened = Vec::new();
+
+    for i in session.chars() {
+        if i == '<' {
+            opened.push(result.ends_with("MeshedChannels"));
+        } else if i == '>' && !result.ends_with('-') && opened.pop() == Some(true) {
+            if let Some((fields, name)) = result.rsplit_once(',') {
+                if let Some(role) = name.trim().strip_prefix("Name") {
+                    result = format!("{fields},Role{role}<RoleEnd>");
+                }
+            }
+        }
+
+        result.push(i);
+    }
+
+    result
+}
+
 // Clean the sessions received and returns a Hashmap of the cleaned sessions and their respective
 // role.
 //
@@ -158,7 +178,13 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
     // The depth of tuples and arrays, whose commas do not separate fields
     let mut brackets = 0;
 
+    // The `->` of a function type does not close anything
+    let mut previous = ' ';
+
     for i in full_block.chars() {
+        let arrow = previous == '-' && i == '>';
+        previous = i;
+
         match i {
             '(' | '[' => brackets += 1,
             ')' | ']' => brackets -= 1,
@@ -166,6 +192,8 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
         }
 
         if i == '&' || i.is_whitespace() {
+        } else if arrow {
+            temp = format!("{temp}{i}");
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
             temp = "".to_string();
-- 
2.43.0


From bb856f6e9ac4315fb8d03f519722c179eec11a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:36 +0000
Subject: [PATCH 23/24] fix: refuse lines of a timed description that cannot be
 read instead of ignoring them

---
 .../auxiliary_objects/process_line.rs         | 41 ++++++++++++++++++-
 .../auxiliary_objects/regex_nuscr.rs          |  2 +-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/process_line.rs b/src/top_down_nuscr/auxiliary_objects/process_line.rs
index 8a64b7d..a505ef9 100644
--- a/src/top_down_nuscr/auxiliary_objects/process_line.rs
+++ b/src/top_down_nuscr/auxiliary_objects/process_line.rs
@@ -5,6 +5,8 @@ use std::io::{BufReader, Error, Lines};
 use std::collections::HashMap;
 use std::iter::{Enumerate, Map};
 
+use regex::Regex;
+
 use super::{line_is_message::update_messages, regex_nuscr::*, GlobalElements, Tree};
 
 fn init_messages(
@@ -107,6 +109,32 @@ fn init_sub_tree(
     Ok(sub_tree)
 }
 
+/// Everything on a line must belong to one interaction, besides brackets and comments
+fn check_whole_line(line: &str, line_number: usize) -> Result<(), Box<dyn std::error::Error>> {
+    let rest = if line_number == 0 {
+        GLOBAL_PROTOCOL.replacen(line, 1, "")
+    } else {
+        let interactions: [&Regex; 5] = [&MESSAGE, &CHOICE, &OR, &REC, &CONTINUE];
+
+        match interactions.iter().find(|regex| regex.is_match(line)) {
+            Some(regex) => regex.replacen(line, 1, ""),
+            None => line.into(),
+        }
+    };
+
+    let rest = rest.trim_matches(|c: char| c.is_whitespace() || c == '{' || c == '}');
+
+    if rest.is_empty() || rest.starts_with("//") {
+        Ok(())
+    } else {
+        Err(format!(
+            "This cannot be read: {}. See line: {}",
+            rest, line_number
+        )
+        .into())
+    }
+}
+
 /// There can be no interaction after the end of a choice or of the protocol
 fn check_nothing_left(line: &str, line_number: usize) -> Result<(), Box<dyn std::error::Error>> {
     if check_message(line)
@@ -165,6 +193,7 @@ pub(crate) fn process_line(
                     <= global_elements.closing_brackets + *bracket_offset
             {
                 check_nothing_left(&line, line_number)?;
+                check_whole_line(&line, line_number)?;
 
                 for (line_number, line) in lines_iter.by_ref() {
                     global_elements.opening_brackets += line.matches('{').count();
@@ -179,11 +208,16 @@ pub(crate) fn process_line(
                     }
 
                     check_nothing_left(&line, line_number)?;
+                    check_whole_line(&line, line_number)?;
                 }
 
                 return Ok(());
             }
 
+            if line_number > 0 || check_global(&line) {
+                check_whole_line(&line, line_number)?;
+            }
+
             if check_global(&line) && line_number == 0 {
                 let captured_fields = GLOBAL_PROTOCOL.captures(&line).unwrap();
 
@@ -383,7 +417,12 @@ pub(crate) fn process_line(
                         .collect::<Vec<_>>()
                         .join("_");
 
-                    let elt = parent_tree.enums.get_mut(&basic_index_string).unwrap();
+                    let elt = parent_tree
+                        .enums
+                        .get_mut(&basic_index_string)
+                        .ok_or_else(|| {
+                            format!("There is no choice to branch on. See line: {}", line_number)
+                        })?;
 
                     let sender = &elt.0;
                     elt.1 += 1;
diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 4fb7ae1..5a88db6 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -1,7 +1,7 @@
 use {once_cell::sync::Lazy, regex::Regex};
 
 pub(crate) static GLOBAL_PROTOCOL: Lazy<Regex> = Lazy::new(|| {
-    Regex::new(r"timed( +)global( +)protocol( +)(?P<name>\w+)\(((role( +)\w+( *),?( *))+)\)( *)\{?")
+    Regex::new(r"timed( +)global( +)protocol( +)(?P<name>\w+)\(((role( +)\w+\b( *),?( *))+)\)( *)\{?")
         .unwrap()
 });
 
-- 
2.43.0


From 8c9596489e5f7dbc772b01a680577c3bc6ae1b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:13 +0000
Subject: [PATCH 24/24] fix: let choose_atmp! name the timed send and report
 its failure

---
 src/binary_atmp/choose.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/binary_atmp/choose.rs b/src/binary_atmp/choose.rs
index 88f07ec..f84b482 100644
--- a/src/binary_atmp/choose.rs
+++ b/src/binary_atmp/choose.rs
@@ -93,8 +93,9 @@ where
 macro_rules! choose_atmp {
     ($label:path, $all_clocks:expr, $session:expr) => {{
         let (here, there) = <_ as mpstthree::binary::struct_trait::session::Session>::new();
-        let s = mpstthree::binary_atmp::send_atmp::send($label(there), $all_clocks, $session);
-        mpstthree::binary::cancel::cancel(s);
-        here
+        mpstthree::binary_atmp::send::send($label(there), $all_clocks, $session).map(|s| {
+            mpstthree::binary::cancel::cancel(s);
+            here
+        })
     }};
 }
-- 
2.43.0

