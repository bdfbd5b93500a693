From 61d76e51483a845c4e1a26960ce8764763c5b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:40 +0000
Subject: [PATCH 01/16] fix: give Bold and Italic the HtmlElement interface
 their tags have

---
 async_ui_web_html/src/common_components.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/async_ui_web_html/src/common_components.rs b/async_ui_web_html/src/common_components.rs
index ec24de2..ca4a27c 100644
--- a/async_ui_web_html/src/common_components.rs
+++ b/async_ui_web_html/src/common_components.rs
@@ -91,7 +91,7 @@ mod impls {
     component_impl!(Anchor, "a", web_sys::HtmlAnchorElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/a)", childed);
     component_impl!(Area, "area", web_sys::HtmlAreaElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/area)", childless);
     component_impl!(Audio, "audio", web_sys::HtmlAudioElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/audio)", childed);
-    component_impl!(Bold, "b", web_sys::HtmlBrElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/b)", childed);
+    component_impl!(Bold, "b", web_sys::HtmlElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/b)", childed);
     component_impl!(Br, "br", web_sys::HtmlBrElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/br)", childless);
     component_impl!(Base, "base", web_sys::HtmlBaseElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/base)", childless);
     component_impl!(Button, "button", web_sys::HtmlButtonElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/button)", childed);
@@ -112,7 +112,7 @@ mod impls {
     component_impl!(H4, "h4", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h4)", childed);
     component_impl!(H5, "h5", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h5)", childed);
     component_impl!(H6, "h6", web_sys::HtmlHeadingElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/h6)", childed);
-    component_impl!(Italic, "i", web_sys::HtmlImageElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/i)", childed);
+    component_impl!(Italic, "i", web_sys::HtmlElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/i)", childed);
     component_impl!(IFrame, "iframe", web_sys::HtmlIFrameElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/iframe)", childed);
     component_impl!(Img, "img", web_sys::HtmlImageElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/img)", childed);
     component_impl!(Input, "input", web_sys::HtmlInputElement, "[the documentation on MDN](https://developer.mozilla.org/en-US/docs/Web/HTML/Element/input)", childless);
-- 
2.43.0


From dd9b73708d6f3ef9302367e265853147a67d8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:48 +0000
Subject: [PATCH 02/16] fix: bind_for_each calls on_change in the beginning
 even when a value is already incoming

---
 x-bow/src/path_ext/bind_for_each.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 70020e0..6bdb41a 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -37,6 +37,7 @@ where
 
     fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Self::Output> {
         let mut this = self.project();
+        let first = !this.until_change.has_been_polled();
 
         let mut val = None;
         loop {
@@ -59,7 +60,6 @@ where
             let _ = this.until_change.as_mut().poll_next(cx);
         }
 
-        let first = !this.until_change.has_been_polled();
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
             if let Some(data) = this.path.borrow_opt().as_deref() {
                 (this.closure)(data);
-- 
2.43.0


From da077fbe6573172b024052f44d9933ddb3122c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 03/16] fix: bind_for_each writes the last incoming value when
 the stream ends in the same poll

---
 x-bow/src/path_ext/bind_for_each.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x-bow/src/path_ext/bind_for_each.rs b/x-bow/src/path_ext/bind_for_each.rs
index 6bdb41a..70ab4af 100644
--- a/x-bow/src/path_ext/bind_for_each.rs
+++ b/x-bow/src/path_ext/bind_for_each.rs
@@ -40,13 +40,15 @@ where
         let first = !this.until_change.has_been_polled();
 
         let mut val = None;
+        let mut finished = false;
         loop {
             match this.incoming.as_mut().poll_next(cx) {
                 Poll::Ready(Some(v)) => {
                     val = Some(v);
                 }
                 Poll::Ready(None) => {
-                    return Poll::Ready(());
+                    finished = true;
+                    break;
                 }
                 Poll::Pending => break,
             }
@@ -59,6 +61,9 @@ where
             }
             let _ = this.until_change.as_mut().poll_next(cx);
         }
+        if finished {
+            return Poll::Ready(());
+        }
 
         if first | this.until_change.as_mut().poll_next(cx).is_ready() {
             if let Some(data) = this.path.borrow_opt().as_deref() {
-- 
2.43.0


From cfc2892a5ead9edbe7cfdd398aa9c29c564bd056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:14 +0000
Subject: [PATCH 04/16] fix: try_join and race_ok accept the documented
 12-tuples

---
 async_ui_web_core/src/combinators/race_ok/tuple.rs  | 1 +
 async_ui_web_core/src/combinators/try_join/tuple.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/async_ui_web_core/src/combinators/race_ok/tuple.rs b/async_ui_web_core/src/combinators/race_ok/tuple.rs
index 88939f3..16bb60e 100644
--- a/async_ui_web_core/src/combinators/race_ok/tuple.rs
+++ b/async_ui_web_core/src/combinators/race_ok/tuple.rs
@@ -53,6 +53,7 @@ impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) }
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) }
 impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) (A10 E10) }
+impl_race_ok_tuple! { (A0 E0) (A1 E1) (A2 E2) (A3 E3) (A4 E4) (A5 E5) (A6 E6) (A7 E7) (A8 E8) (A9 E9) (A10 E10) (A11 E11) }
 
 #[cfg(test)]
 mod test {
diff --git a/async_ui_web_core/src/combinators/try_join/tuple.rs b/async_ui_web_core/src/combinators/try_join/tuple.rs
index fe91edd..e34f7f7 100644
--- a/async_ui_web_core/src/combinators/try_join/tuple.rs
+++ b/async_ui_web_core/src/combinators/try_join/tuple.rs
@@ -51,6 +51,7 @@ impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) }
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) }
 impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) (A10 T10) }
+impl_try_join_tuple! { (A0 T0) (A1 T1) (A2 T2) (A3 T3) (A4 T4) (A5 T5) (A6 T6) (A7 T7) (A8 T8) (A9 T9) (A10 T10) (A11 T11) }
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 01211b5606c65b671d535007a3594df0390dea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 05/16] fix: dropping a mounted root no longer makes its
 descendants detach themselves without a DOM context

---
 async_ui_web_core/src/node_container.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/async_ui_web_core/src/node_container.rs b/async_ui_web_core/src/node_container.rs
index ca5858e..e5fa4ab 100644
--- a/async_ui_web_core/src/node_container.rs
+++ b/async_ui_web_core/src/node_container.rs
@@ -86,6 +86,8 @@ impl<C> PinnedDrop for ContainerNodeFuture<C> {
             }
         } else {
             // we didn't add our node
+            // we remove everything rendered in it, so our descendants should not try to
+            self.drop.block_until_drop();
             let this = self.project();
             DomContext::Container {
                 group: this.group,
-- 
2.43.0


From 04163bd65ee6c0a182a6e3f887db35542fc3dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 06/16] fix: DynamicList::insert and move_before put the item
 at the end when the before key does not exist

---
 async_ui_web/src/lists/dynamic_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index b51ec0c..2073f61 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -125,7 +125,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         let start_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let end_marker: web_sys::Node = Comment::new().unwrap_throw().into();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         container
             .insert_before(&end_marker, Some(after))
@@ -215,7 +216,8 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     {
         let inner = self.inner.borrow();
         let after = before
-            .map(|k| &inner.items.get(k).unwrap().start_marker)
+            .and_then(|k| inner.items.get(k))
+            .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
         let container = inner.containing_node.get();
-- 
2.43.0


From 4a09491a69f61730f250cc68bf0bded6cd77b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 07/16] fix: DynamicList::swap of an item with the one directly
 after it keeps that item's markers in order

---
 async_ui_web/src/lists/dynamic_list.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 2073f61..435a31e 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -249,6 +249,16 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
         }
         let after_key_1 = item_1.end_marker.next_sibling();
         let container = inner.containing_node.get();
+        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {
+            // item 2 is directly after item 1, so there is nothing between them to move it before
+            move_nodes_before(
+                container,
+                &item_2.start_marker,
+                &item_2.end_marker,
+                Some(&item_1.start_marker),
+            );
+            return;
+        }
         move_nodes_before(
             container,
             &item_1.start_marker,
-- 
2.43.0


From 1993232d1df4bd59ad2e9f236794786d0ff4c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 08/16] fix: DynamicList::move_before with the same key twice
 leaves the item where it is

---
 async_ui_web/src/lists/dynamic_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index 435a31e..dadb074 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -220,6 +220,9 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
             .map(|item| &item.start_marker)
             .unwrap_or(&self.list_end_marker);
         let to_move = inner.items.get(to_move).unwrap();
+        if to_move.start_marker.is_same_node(Some(after)) {
+            return;
+        }
         let container = inner.containing_node.get();
         move_nodes_before(
             container,
-- 
2.43.0


From 6e37f95cddff7e5931a5c8a0a50a5db0843fde91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 09/16] fix: DiffedList and Dropdown do not place new keys
 before keys that were already moved away

---
 async_ui_web/src/components/dropdown.rs | 5 +++++
 async_ui_web/src/lists/diffed_list.rs   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index b592c80..534a11b 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -133,6 +133,11 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
         let mut prev_opts_iter = prev_opts_list.iter().peekable();
         let mut new_opts_list = Vec::new();
         for (opt, text) in new_opts {
+            // options that were moved are not at their previous place anymore
+            while prev_opts_iter
+                .next_if(|prev_opt| !prev_opts_set.contains(*prev_opt))
+                .is_some()
+            {}
             let should_put = if prev_opts_set.remove(&opt) {
                 prev_opts_iter.next_if_eq(&&opt).is_none()
             } else {
diff --git a/async_ui_web/src/lists/diffed_list.rs b/async_ui_web/src/lists/diffed_list.rs
index 7167fbd..f2532e3 100644
--- a/async_ui_web/src/lists/diffed_list.rs
+++ b/async_ui_web/src/lists/diffed_list.rs
@@ -91,6 +91,11 @@ where
         let mut prev_keys_set = prev_keys_list.iter().collect::<HashSet<_>>();
         let mut prev_keys_iter = prev_keys_list.iter().peekable();
         for key in new_keys.iter() {
+            // keys that were moved are not at their previous place anymore
+            while prev_keys_iter
+                .next_if(|prev_key| !prev_keys_set.contains(*prev_key))
+                .is_some()
+            {}
             if prev_keys_set.remove(key) {
                 if prev_keys_iter.next_if_eq(&key).is_some() {
                     continue;
-- 
2.43.0


From 3c6675d33b924490177d16483a80e087e1585120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:22 +0000
Subject: [PATCH 10/16] fix: a DynamicList keeps its place among siblings that
 are rendered later

---
 async_ui_web/src/lists/dynamic_list.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/async_ui_web/src/lists/dynamic_list.rs b/async_ui_web/src/lists/dynamic_list.rs
index dadb074..08ce5de 100644
--- a/async_ui_web/src/lists/dynamic_list.rs
+++ b/async_ui_web/src/lists/dynamic_list.rs
@@ -308,19 +308,23 @@ impl<'c, K: Eq + Hash, F: Future + 'c> DynamicList<'c, K, F> {
     /// This async method never completes.
     pub async fn render(&self) {
         let real_containing_node;
+        // this marker keeps our place among the siblings for as long as we are rendered
+        let position_marker: web_sys::Node = Comment::new().unwrap_throw().into();
+        let mut position_marker_fut =
+            ContainerNodeFuture::new(pending::<()>(), position_marker.clone());
         {
             use async_ui_internal_utils::dummy_waker::dummy_waker;
             use std::task::Context;
             let waker = dummy_waker();
             let mut context = Context::from_waker(&waker);
-            let mut insert_marker_fut =
-                ContainerNodeFuture::new(pending::<()>(), self.list_start_marker.clone());
-            let _ = Pin::new(&mut insert_marker_fut).poll(&mut context);
-            real_containing_node = self.list_start_marker.parent_node().unwrap_throw();
+            let _ = Pin::new(&mut position_marker_fut).poll(&mut context);
+            real_containing_node = position_marker.parent_node().unwrap_throw();
             real_containing_node
-                .insert_before(&self.list_end_marker, Some(&self.list_start_marker))
+                .insert_before(
+                    &self.list_end_marker,
+                    position_marker.next_sibling().as_ref(),
+                )
                 .unwrap_throw();
-            drop(insert_marker_fut);
             real_containing_node
                 .insert_before(&self.list_start_marker, Some(&self.list_end_marker))
                 .unwrap_throw();
-- 
2.43.0


From c5b63dd6b4d9049fcf847cb1e0eae545e410e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:59 +0000
Subject: [PATCH 11/16] fix: Dropdown::set_value(None) forgets the value that
 was set before

---
 async_ui_web/src/components/dropdown.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/async_ui_web/src/components/dropdown.rs b/async_ui_web/src/components/dropdown.rs
index 534a11b..9305924 100644
--- a/async_ui_web/src/components/dropdown.rs
+++ b/async_ui_web/src/components/dropdown.rs
@@ -111,6 +111,7 @@ impl<O: Eq + Hash + Clone> Dropdown<O> {
                 return;
             }
         }
+        self.inner.borrow_mut().selected = None;
         self.select.set_value("");
     }
     /// Set the options to be displayed in the dropdown.
-- 
2.43.0


From 740aec3a97bc0aeec2d644f1355327106182884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:05 +0000
Subject: [PATCH 12/16] fix: remove the listener of a capturing event stream
 when it is dropped

The listener was removed without its capture flag, so one registered after
set_capture(true) stayed registered with a closure that had been dropped.
---
 async_ui_web_html/src/event_handling.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/async_ui_web_html/src/event_handling.rs b/async_ui_web_html/src/event_handling.rs
index 28c1275..a42b003 100644
--- a/async_ui_web_html/src/event_handling.rs
+++ b/async_ui_web_html/src/event_handling.rs
@@ -29,6 +29,7 @@ pub struct EventFutureStream<E> {
     closure: Option<Closure<dyn Fn(web_sys::Event)>>,
     shared: Rc<RefCell<(Option<E>, Waker)>>,
     options: Option<AddEventListenerOptions>,
+    capture: bool,
     event_name: Cow<'static, str>,
 }
 
@@ -41,6 +42,7 @@ impl<E: JsCast> EventFutureStream<E> {
             closure: None,
             shared: Rc::new(RefCell::new((None, dummy_waker()))),
             options: None,
+            capture: false,
             event_name,
         }
     }
@@ -53,6 +55,7 @@ impl<E: JsCast> EventFutureStream<E> {
     ///
     /// This needs to be set *before* you first poll the stream.
     pub fn set_capture(&mut self, capture: bool) {
+        self.capture = capture;
         self.options
             .get_or_insert_with(AddEventListenerOptions::new)
             .capture(capture);
@@ -160,9 +163,10 @@ impl<E> Drop for EventFutureStream<E> {
     fn drop(&mut self) {
         if let Some(callback) = self.closure.take() {
             self.target
-                .remove_event_listener_with_callback(
+                .remove_event_listener_with_callback_and_bool(
                     &self.event_name,
                     callback.as_ref().unchecked_ref(),
+                    self.capture,
                 )
                 .unwrap_throw();
         }
-- 
2.43.0


From 1f6f2f011feba23e742a7db92f104d952e3c238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:38 +0000
Subject: [PATCH 13/16] fix: do not drop futures while a DynamicSlot is
 borrowed

A future whose drop used the slot it was in (or was sent to) panicked.
---
 async_ui_web/src/components/dynamic_slot.rs | 32 +++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index 2beb001..db588a0 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -72,17 +72,19 @@ impl<F: Future> DynamicSlot<F> {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
         poll_fn(|cx| {
-            {
+            let message = {
                 let mut channel = self.channel.borrow_mut();
-                match std::mem::replace(&mut channel.1, Message::NoChange) {
-                    Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
-                    Message::Clear => fut_slot.set(None),
-                    Message::NoChange => {}
-                }
                 // if the Waker in the channel is outdated, update it
                 if !channel.0.will_wake(cx.waker()) {
                     channel.0 = cx.waker().to_owned();
                 }
+                std::mem::replace(&mut channel.1, Message::NoChange)
+            };
+            // the channel is not borrowed here: dropping a Future may run code that uses it
+            match message {
+                Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                Message::Clear => fut_slot.set(None),
+                Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one
             if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
@@ -95,15 +97,21 @@ impl<F: Future> DynamicSlot<F> {
 
     /// Set the future to render in the slot, dropping the previous one.
     pub fn set_future(&self, fut: F) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Set(fut);
-        channel.0.wake_by_ref();
+        self.send(Message::Set(fut));
     }
 
     /// Remove the future currently rendering in the slot (if any).
     pub fn clear_future(&self) {
-        let mut channel = self.channel.borrow_mut();
-        channel.1 = Message::Clear;
-        channel.0.wake_by_ref();
+        self.send(Message::Clear);
+    }
+
+    fn send(&self, message: Message<F>) {
+        let unread = {
+            let mut channel = self.channel.borrow_mut();
+            channel.0.wake_by_ref();
+            std::mem::replace(&mut channel.1, message)
+        };
+        // dropped after the borrow has ended: a Future's drop may use the slot
+        drop(unread);
     }
 }
-- 
2.43.0


From 299f995e1544639727c6a3176be559de6e4a71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:38 +0000
Subject: [PATCH 14/16] fix: do not poll a future in a DynamicSlot again after
 it has completed

---
 async_ui_web/src/components/dynamic_slot.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/async_ui_web/src/components/dynamic_slot.rs b/async_ui_web/src/components/dynamic_slot.rs
index db588a0..aa21537 100644
--- a/async_ui_web/src/components/dynamic_slot.rs
+++ b/async_ui_web/src/components/dynamic_slot.rs
@@ -71,6 +71,8 @@ impl<F: Future> DynamicSlot<F> {
     pub async fn render(&self) {
         // this is where the Future lives
         let mut fut_slot: Pin<&mut Option<F>> = pin!(None);
+        // whether the Future in the slot has completed (then it must not be polled again)
+        let mut completed = false;
         poll_fn(|cx| {
             let message = {
                 let mut channel = self.channel.borrow_mut();
@@ -82,13 +84,16 @@ impl<F: Future> DynamicSlot<F> {
             };
             // the channel is not borrowed here: dropping a Future may run code that uses it
             match message {
-                Message::Set(new_fut) => fut_slot.set(Some(new_fut)),
+                Message::Set(new_fut) => {
+                    fut_slot.set(Some(new_fut));
+                    completed = false;
+                }
                 Message::Clear => fut_slot.set(None),
                 Message::NoChange => {}
             }
             // poll the Future in the slot, if there is one
-            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
-                let _ = fut.poll(cx);
+            if let (Some(fut), false) = (fut_slot.as_mut().as_pin_mut(), completed) {
+                completed = fut.poll(cx).is_ready();
             }
             Poll::Pending
         })
-- 
2.43.0


From 3e030a75f8640411e8f8bd4dd243432d316441d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:14 +0000
Subject: [PATCH 15/16] fix: a VirtualizedList removes the items past its new
 end when it becomes shorter

---
 async_ui_web/src/lists/virtualized_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 507a6f1..8527659 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -184,7 +184,9 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let root_size = rect_root.1 - rect_root.0;
         let tres_size = root_size * 1.25;
         let pad_size = root_size * 2.0;
-        if (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
+        // items past the end (when the list has become shorter) never stay
+        if state.range.end <= state.num_items
+            && (rect_f.1 + tres_size < rect_root.0 || state.range.start == 0)
             && (rect_b.0 - tres_size > rect_root.1 || state.range.end == state.num_items)
         {
             return;
-- 
2.43.0


From 3def85b1e5044cc60b42941ea348540533fd6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:14 +0000
Subject: [PATCH 16/16] fix: a VirtualizedList scrolled past its end does not
 render items twice later

---
 async_ui_web/src/lists/virtualized_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/async_ui_web/src/lists/virtualized_list.rs b/async_ui_web/src/lists/virtualized_list.rs
index 8527659..3cca1c9 100644
--- a/async_ui_web/src/lists/virtualized_list.rs
+++ b/async_ui_web/src/lists/virtualized_list.rs
@@ -201,6 +201,8 @@ impl<'c, Fut: Future + 'c, Renderer: FnMut(usize) -> Fut> VirtualizedList<'c, Fu
         let new_start = ((rect_root.0 - pad_size - rect_f.0) / avg_size).max(0.0) as usize;
         let new_end =
             (((rect_root.1 + pad_size - rect_f.0) / avg_size).ceil() as usize).min(state.num_items);
+        // when scrolled past the end there is nothing to show (the range must not be inverted)
+        let new_start = new_start.min(new_end);
 
         let preferred_height_f = avg_size * new_start as f64;
         let preferred_height_b = avg_size * (state.num_items - new_end) as f64;
-- 
2.43.0

