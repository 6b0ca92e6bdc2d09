property = "C14"
needs = "a client subscribing again to a filter it already has, with another QoS"
breaks = "the new QoS is granted but messages are still routed with the old one"
net = True
edits = [("akasa-core/src/protocols/mqtt/v5/packet/subscribe.rs", "                global\n                    .route_table\n                    .subscribe(filter, session.client_id, granted_qos);\n", "                if old_sub.is_none() {\n                    global\n                        .route_table\n                        .subscribe(filter, session.client_id, granted_qos);\n                }\n")]
demo = r"""
pub fn main() { go(async {
    let mut t = T::new(cfg());
    let b = t.up(&c5("b", true, 0)).await;
    t.sub(b, "t", 0).await;
    t.sub(b, "t", 1).await;
    let a = t.up(&c5("a", true, 0)).await;
    t.publish(a, m("t", "x", 1), 1).await;
    let g = pubs(&t.got(b));
    assert_eq!(g.iter().map(|p| p.m.qos).collect::<Vec<_>>(), [1]);
}) }
"""
