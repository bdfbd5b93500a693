D = "async_ui_web/src/components/dynamic_slot.rs"
Q, F = {"L05": "quiet"}, {"L05": "fire"}
TAKE = """            let message = {
                let mut channel = self.channel.borrow_mut();
                // if the Waker in the channel is outdated, update it
                if !channel.0.will_wake(cx.waker()) {
                    channel.0 = cx.waker().to_owned();
                }
                std::mem::replace(&mut channel.1, Message::NoChange)
            };
"""
MATCH = """            match message {
                Message::Set(new_fut) => {
                    fut_slot.set(Some(new_fut));
                    completed = false;
                }
                Message::Clear => fut_slot.set(None),
                Message::NoChange => {}
            }
"""
POLL = """            if let (Some(fut), false) = (fut_slot.as_mut().as_pin_mut(), completed) {
                completed = fut.poll(cx).is_ready();
            }
"""
SEND = """        let unread = {
            let mut channel = self.channel.borrow_mut();
            channel.0.wake_by_ref();
            std::mem::replace(&mut channel.1, message)
        };
        // dropped after the borrow has ended: a Future's drop may use the slot
        drop(unread);
"""
T("waker-always", [(D, TAKE, """            let message = {
                let mut channel = self.channel.borrow_mut();
                channel.0 = cx.waker().clone();
                std::mem::replace(&mut channel.1, Message::NoChange)
            };
""")], Q)
T("two-borrows", [(D, TAKE, """            self.channel.borrow_mut().0 = cx.waker().clone();
            let message = std::mem::replace(&mut self.channel.borrow_mut().1, Message::NoChange);
""")], Q)
T("is-some-poll", [(D, POLL, """            if fut_slot.is_some() && !completed {
                let fut = fut_slot.as_mut().as_pin_mut().unwrap();
                if let Poll::Ready(_) = fut.poll(cx) {
                    completed = true;
                }
            }
""")], Q)
T("drop-completed", [(D, POLL, """            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
                if fut.poll(cx).is_ready() {
                    fut_slot.set(None);
                }
            }
""")], Q)
T("if-let", [(D, MATCH, """            let _old = ();
            if let Message::Set(new_fut) = message {
                completed = false;
                fut_slot.set(Some(new_fut));
            } else if matches!(message, Message::Clear) {
                fut_slot.set(None);
            }
""")], Q)
T("send-swap", [(D, SEND, """        let mut message = message;
        let waker = {
            let mut channel = self.channel.borrow_mut();
            std::mem::swap(&mut channel.1, &mut message);
            channel.0.clone()
        };
        waker.wake();
""")], Q)
T("option-message", [(D, "channel: RefCell<(Waker, Message<F>)>,", "channel: RefCell<(Waker, Option<Option<F>>)>,"),
   (D, """enum Message<F> {
    // replace the Future rendering in the slot with this new Future
    Set(F),
    // remove the Future rendering in the slot
    Clear,
    // don't do anything
    NoChange,
}
""", ""), (D, "RefCell::new((dummy_waker(), Message::NoChange)),", "RefCell::new((dummy_waker(), None)),"),
   (D, "std::mem::replace(&mut channel.1, Message::NoChange)", "channel.1.take()"), (D, MATCH, """            if let Some(new) = message {
                fut_slot.set(new);
                completed = false;
            }
"""), (D, "fn send(&self, message: Message<F>)", "fn send(&self, message: Option<F>)"), (D, "std::mem::replace(&mut channel.1, message)", "channel.1.replace(message)"),
   (D, "self.send(Message::Set(fut));", "self.send(Some(fut));"), (D, "self.send(Message::Clear);", "self.send(None);")], Q)
T("struct-channel", [(D, "channel: RefCell<(Waker, Message<F>)>,", "waker: RefCell<Waker>,\n    message: std::cell::Cell<Message<F>>,"),
   (D, "channel: RefCell::new((dummy_waker(), Message::NoChange)),", "waker: RefCell::new(dummy_waker()),\n            message: std::cell::Cell::new(Message::NoChange),"),
   (D, TAKE, "            *self.waker.borrow_mut() = cx.waker().clone();\n            let message = self.message.replace(Message::NoChange);\n"),
   (D, SEND, "        let old = self.message.replace(message);\n        self.waker.borrow().wake_by_ref();\n        drop(old);\n")], Q)
# ---- fire
T("waker-kept", [(D, "if !channel.0.will_wake(cx.waker()) {", "if channel.0.will_wake(cx.waker()) {")], F)
T("waker-once", [(D, "        let mut completed = false;\n", "        let mut completed = false;\n        let mut registered = false;\n"), (D, "if !channel.0.will_wake(cx.waker()) {", "if !std::mem::replace(&mut registered, true) {")], F)
T("poll-twice", [(D, POLL, """            if let Some(fut) = fut_slot.as_mut().as_pin_mut() {
                let _ = fut.poll(cx);
            }
""")], F)
T("completed-stays", [(D, "                    completed = false;\n", "")], F)
T("clear-does-nothing-when-completed", [(D, "                Message::Clear => fut_slot.set(None),\n", "                Message::Clear if completed => {}\n                Message::Clear => fut_slot.set(None),\n")], F)
T("set-if-empty", [(D, "                Message::Set(new_fut) => {\n", "                Message::Set(_) if fut_slot.is_some() && completed => {}\n                Message::Set(new_fut) => {\n")], F)
T("first-message-wins", [(D, SEND, """        let mut channel = self.channel.borrow_mut();
        channel.0.wake_by_ref();
        if let Message::NoChange = channel.1 {
            channel.1 = message;
        }
""")], F)
T("clear-not-over-set", [(D, SEND, """        let mut channel = self.channel.borrow_mut();
        channel.0.wake_by_ref();
        if let (Message::Set(_), Message::Clear) = (&channel.1, &message) {
            channel.1 = Message::NoChange;
        } else {
            channel.1 = message;
        }
""")], F)
T("no-wake-on-clear", [(D, SEND, """        let unread = {
            let mut channel = self.channel.borrow_mut();
            if let Message::Set(_) = message {
                channel.0.wake_by_ref();
            }
            std::mem::replace(&mut channel.1, message)
        };
        drop(unread);
""")], F)
T("wake-only-if-unread", [(D, SEND, """        let unread = {
            let mut channel = self.channel.borrow_mut();
            if let Message::NoChange = channel.1 {
                channel.0.wake_by_ref();
            }
            std::mem::replace(&mut channel.1, message)
        };
        drop(unread);
""")], {"L05": "quiet"})
T("borrow-over-set", [(D, TAKE, """            let mut channel = self.channel.borrow_mut();
            channel.0 = cx.waker().clone();
            let message = std::mem::replace(&mut channel.1, Message::NoChange);
""")], F)
T("borrow-over-poll", [(D, MATCH, MATCH + "            let _channel = self.channel.borrow();\n")], F)
T("drop-in-send", [(D, SEND, """        let mut channel = self.channel.borrow_mut();
        channel.1 = message;
        channel.0.wake_by_ref();
""")], F)
T("ends", [(D, "            Poll::Pending\n        })", "            if completed {\n                return Poll::Ready(());\n            }\n            Poll::Pending\n        })")], F)
T("not-polled-at-once", [(D, POLL + "            Poll::Pending\n", "            let fresh = true;\n            if let (Some(fut), false) = (fut_slot.as_mut().as_pin_mut(), completed) {\n                completed = fut.poll(cx).is_ready();\n            }\n            Poll::Pending\n"),
   (D, "                    fut_slot.set(Some(new_fut));\n                    completed = false;\n", "                    fut_slot.set(Some(new_fut));\n                    completed = false;\n                    return Poll::Pending;\n")], F)
T("poll-before-message", [(D, MATCH, POLL + MATCH.replace("                    completed = false;\n", "                    completed = false;\n"))], F)
T("message-kept", [(D, "std::mem::replace(&mut channel.1, Message::NoChange)", "match &channel.1 { Message::Clear => Message::Clear, _ => std::mem::replace(&mut channel.1, Message::NoChange) }")], {"L05": "quiet"})
