id="l03-clone-keeps-its-identity"; prop="L03"
needs="A model and its clone that are both changed, and a list updated to one and then the other."
breaks="A clone of a model shares the original's identity and version, so the list takes the clone for the model it knows and applies only part of the clone's changes."
edits=[("async_ui_web/src/lists/modeled_list.rs","""        Self::default()
    }
}

impl<K> Default for ListModelLog<K> {""","""        Self {
            changes: VecDeque::new(),
            version: self.version,
            unique: self.unique.clone(),
        }
    }
}

impl<K> Default for ListModelLog<K> {""")]
demo=("lists", r'''
fn main() {
    let list = ModeledList::new(|k: &u32| show(&k.to_string()));
    let root = Node::fake("root");
    let mut ui = Box::pin(ContainerNodeFuture::new_root(list.render(), root.clone()));
    let mut a = ListModel::from(vec![1, 2, 3, 4]);
    list.update(&a);
    let mut b = a.clone();
    a.push(5);
    b.push(6);
    list.update(&a);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "1 2 3 4 5");
    list.update(&b);
    assert!(tick(&mut ui).is_pending());
    assert_eq!(seen(&root), "1 2 3 4 6");
}
''')
