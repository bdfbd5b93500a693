D = "async_ui_web/src/lists/dynamic_list.rs"
Q, F = {"L01": "quiet"}, {"L01": "fire"}
MOVE = """    let mut node = start_marker.clone();
    loop {
        let next_node = node.next_sibling();
        container.insert_before(&node, after).unwrap_throw();
        if end_marker.is_same_node(Some(&node)) {
            break;
        }
        node = next_node.unwrap();
    }
"""
T("move-while", [(D, MOVE, """    let mut next = Some(start_marker.clone());
    while let Some(node) = next {
        next = if node.is_same_node(Some(end_marker)) { None } else { node.next_sibling() };
        container.insert_before(&node, after).unwrap_throw();
    }
""")], Q)
T("move-backwards", [(D, MOVE, """    let mut node = end_marker.clone();
    let mut after = after.cloned();
    loop {
        let prev = node.previous_sibling();
        container.insert_before(&node, after.as_ref()).unwrap_throw();
        if start_marker.is_same_node(Some(&node)) {
            break;
        }
        after = Some(node);
        node = prev.unwrap();
    }
""")], Q)
T("move-collect", [(D, MOVE, """    let mut nodes = vec![start_marker.clone()];
    while !end_marker.is_same_node(nodes.last()) {
        let next = nodes.last().unwrap().next_sibling().unwrap();
        nodes.push(next);
    }
    for node in nodes {
        container.insert_before(&node, after).unwrap_throw();
    }
""")], Q)
TAKE = """            drop(task);
            let container = inner.containing_node.get();
            let _ = container.remove_child(&start_marker).unwrap_throw();
            let _ = container.remove_child(&end_marker).unwrap_throw();
            true
"""
T("remove-helper", [(D, TAKE, """            inner.take_off(task, &start_marker, &end_marker);
            true
"""), (D, "impl ContainingNode {", """impl<K: Eq + Hash, F: Future> DynamicListInner<K, F> {
    fn take_off(&self, task: Task<F::Output>, start: &web_sys::Node, end: &web_sys::Node) {
        let container = self.containing_node.get();
        for marker in [start, end] {
            let _ = container.remove_child(marker).unwrap_throw();
        }
        drop(task);
    }
}
impl ContainingNode {""")], Q)
T("remove-match", [(D, """        if let Some(Stored {
            start_marker,
            end_marker,
            task,
        }) = inner.items.remove(key)
        {
            drop(task);
            let container = inner.containing_node.get();
            let _ = container.remove_child(&start_marker).unwrap_throw();
            let _ = container.remove_child(&end_marker).unwrap_throw();
            true
        } else {
            false
        }
""", """        let Some(stored) = inner.items.remove(key) else {
            return false;
        };
        let container = inner.containing_node.get();
        container.remove_child(&stored.start_marker).unwrap_throw();
        container.remove_child(&stored.end_marker).unwrap_throw();
        true
""")], Q)
T("insert-order", [(D, """        container
            .insert_before(&end_marker, Some(after))
            .unwrap_throw();
        container
            .insert_before(&start_marker, Some(&end_marker))
            .unwrap_throw();
        let end""", """        for marker in [&start_marker, &end_marker] {
            container.insert_before(marker, Some(after)).unwrap_throw();
        }
        let end""")], Q)
T("insert-is-some", [(D, """        if let Some(Stored {
            task,
            start_marker,
            end_marker,
        }) = inner.items.insert(key, stored)
        {
            drop(task);
            let container = inner.containing_node.get();
            let _ = container.remove_child(&start_marker).unwrap_throw();
            let _ = container.remove_child(&end_marker).unwrap_throw();
            true
        } else {
            false
        }
""", """        let old = inner.items.insert(key, stored);
        if let Some(old) = &old {
            let container = inner.containing_node.get();
            let _ = container.remove_child(&old.start_marker).unwrap_throw();
            let _ = container.remove_child(&old.end_marker).unwrap_throw();
        }
        old.is_some()
""")], Q)
T("retain-collect", [(D, """        items.retain(|key, value| {
            let keep = func(key);
            if !keep {
                container.remove_child(&value.start_marker).unwrap_throw();
                container.remove_child(&value.end_marker).unwrap_throw();
            }
            keep
        });
""", """        let mut gone = Vec::new();
        items.retain(|key, value| {
            if func(key) {
                return true;
            }
            gone.push(value.start_marker.clone());
            gone.push(value.end_marker.clone());
            false
        });
        gone.iter().for_each(|n| {
            container.remove_child(n).unwrap_throw();
        });
""")], Q)
T("swap-by-moves", [(D, "        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {\n", "        let adjacent = match &after_key_1 {\n            Some(node) => node.is_same_node(Some(&item_2.start_marker)),\n            None => false,\n        };\n        if adjacent {\n")], Q)
T("rename", [(D, "start_marker", "head"), (D, "end_marker", "tail")], Q)
T("render-guard-order", [(D, """            move_nodes_before(
                fragment.as_ref(),
                &self.list_start_marker,
                &self.list_end_marker,
                None,
            );
            inner.containing_node = ContainingNode::Fake(fragment);
""", """            inner.containing_node = ContainingNode::Fake(fragment.clone());
            move_nodes_before(
                &fragment,
                &self.list_start_marker,
                &self.list_end_marker,
                None,
            );
""")], Q)
# bugs
T("B-insert-panics", [(D, """        let after = before
            .and_then(|k| inner.items.get(k))
            .map(|item| &item.start_marker)
            .unwrap_or(&self.list_end_marker);
        container
""", """        let after = before
            .map(|k| &inner.items.get(k).unwrap().start_marker)
            .unwrap_or(&self.list_end_marker);
        container
""")], F)
T("B-before-end", [(D, """            .map(|item| &item.start_marker)
            .unwrap_or(&self.list_end_marker);
        let to_move""", """            .map(|item| &item.end_marker)
            .unwrap_or(&self.list_end_marker);
        let to_move""")], F)
T("B-swap-adjacent", [(D, "        if item_2.start_marker.is_same_node(after_key_1.as_ref()) {\n", "        if false {\n")], F)
T("B-move-self", [(D, "        if to_move.start_marker.is_same_node(Some(after)) {\n            return;\n        }\n", "")], F)
T("B-move-stops", [(D, "        node = next_node.unwrap();\n", "        node = next_node.unwrap();\n        if end_marker.is_same_node(Some(&node)) {\n            break;\n        }\n")], F)
T("B-keep-end-marker", [(D, "                container.remove_child(&value.end_marker).unwrap_throw();\n            }\n            keep", "            }\n            keep")], F)
T("B-detach", [(D, "            drop(task);\n", "            task.detach();\n")], F)
T("B-guard-gone", [(D, "            inner.containing_node = ContainingNode::Fake(fragment);\n", "            let _ = &mut inner;\n")], F)
T("B-guard-none", [(D, "        let _guard = scopeguard::guard((), |_| {", "        let _ = scopeguard::guard((), |_| {")], F)
T("B-fragment-after", [(D, ".insert_before(fragment.as_ref(), Some(&self.list_end_marker))", ".insert_before(fragment.as_ref(), position_marker.next_sibling().as_ref())")], F)
T("B-no-place", [(D, "        let mut position_marker_fut =\n            ContainerNodeFuture::new(pending::<()>(), position_marker.clone());\n        {\n", "        {\n            let mut position_marker_fut =\n                ContainerNodeFuture::new(pending::<()>(), position_marker.clone());\n")], F)
T("B-no-block", [(D, "        self.detachment_blocker.block_until_drop();\n", "")], F)
T("B-retain-inverted", [(D, "            keep\n        });", "            !keep\n        });")], F)
T("B-swap-ptr", [(D, """        move_nodes_before(
            container,
            &item_2.start_marker,
            &item_2.end_marker,
            after_key_1.as_ref(),
        );
""", """        move_nodes_before(
            container,
            &item_2.start_marker,
            &item_2.end_marker,
            item_1.end_marker.next_sibling().as_ref(),
        );
""")], F)
