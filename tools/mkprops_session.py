Q = "all interleavings of the peer's frames with the application's calls, all identifiers, counters (including wrap-around), window, credit and frame sizes"
prop("S01", "A sender never exceeds link credit and always uses the credit it has",
 "On a sender link the number of deliveries sent never exceeds what the peer's flows allow: the delivery count and link credit of the last flow, counted with 32-bit serial-number arithmetic from the link's initial delivery count. Credit granted before the link is confirmed counts. Credit is never lost: a message that waits is sent as soon as credit and session window allow it.",
 ["histories", "schedules", "inputs"], Q,
 "Tests run a sender against a peer with ample credit; stale flows, zero credit, wrap-around and credit that arrives while others wait are a product of histories.",
 ["src/sndlink.rs", "src/session.rs", "src/dispatcher.rs"],
 [("credit update on flow", "src/sndlink.rs apply_flow"), ("send loop", "src/sndlink.rs send"), ("flow routing", "src/session.rs handle_frame")],
 ["transfer frames per link", "SenderLink::transfer().send()", "SenderLink::ready()"],
 [("link_credit, delivery_count", "credit left and deliveries sent", "src/sndlink.rs SenderLinkInner"), ("pending_transfers", "sends that wait for credit", "src/sndlink.rs")])
prop("S02", "Session window and transfer numbering are respected",
 "Deliveries of a session carry sequential delivery ids starting with the next-outgoing-id the endpoint announced in its begin. No delivery is started beyond the incoming window the peer announced last (serial arithmetic on the peer's next-incoming-id); a message that waits for the window is sent when the window opens. Every flow the endpoint sends states its own next-outgoing-id and the peer transfer frames received so far; a flow with echo is answered. (Window use is counted per delivery: see known findings for deliveries of several frames.)",
 ["histories", "schedules", "inputs"], Q,
 "Window exhaustion, stale flows and wrap-around need long or unusual histories that no test produces.",
 ["src/session.rs", "src/connection.rs"],
 [("window update", "src/session.rs handle_flow"), ("waiting for the window", "src/session.rs wait_window, send_transfer"), ("counting received transfers", "src/session.rs handle_frame")],
 ["transfer and flow frames per session"],
 [("next_outgoing_id, remote_incoming_window, next_incoming_id", "session flow state", "src/session.rs SessionInner")])
prop("S03", "A sent message arrives complete, in order, and within the peer's limits",
 "The payloads of the transfer frames of one delivery, concatenated, are exactly the message the application passed to the sender. Every transfer frame fits the peer's max-frame-size; all but the last frame of a delivery have the more flag; the first frame carries the delivery id, tag, message format and settled flag asked for (a tag unique on the link if none is given); frames of two deliveries never interleave on a link. A message larger than the peer's max-message-size (zero and absent mean no limit) is refused and nothing of it is sent.",
 ["inputs", "histories"], "all message sizes and contents, all max-frame-size and max-message-size values of the peer, all histories",
 "Tests send small messages with the default frame size; boundaries between one, two and many frames and tiny frame sizes are not exercised.",
 ["src/session.rs", "src/sndlink.rs", "codec/src/protocol/mod.rs"],
 [("splitting a body into transfers", "src/session.rs send_transfer"), ("tags and size limit", "src/sndlink.rs, src/session.rs")],
 ["transfer frames", "result of TransferBuilder::send"])
prop("S04", "Received deliveries reach the application once, whole and in order",
 "Each delivery the peer sends on a receiver link within its credit is handed to the application exactly once, in the order sent, with its id, tag, format and the concatenation of all its frames; a delivery whose last frame is outstanding is never visible. A delivery without credit, a first frame without delivery id, a continuation with another delivery id, and a partial message growing beyond the limit close the link with the matching error, whereas deliveries received before stay available. Credit the application grants is sent to the peer together with the link's current delivery count.",
 ["inputs", "histories", "schedules"], Q,
 "Tests receive single-frame deliveries within credit; fragmentation, violations and reads racing with frames are not covered.",
 ["src/rcvlink.rs", "src/session.rs"],
 [("assembling deliveries", "src/rcvlink.rs handle_transfer"), ("reading deliveries", "src/rcvlink.rs poll_recv, get_delivery"), ("granting credit", "src/rcvlink.rs set_link_credit, src/session.rs rcv_link_flow")],
 ["ReceiverLink::recv", "ReceiverLink::get_delivery", "flow and detach frames"],
 [("queue, partial_body, credit, delivery_count", "receive state of a link", "src/rcvlink.rs ReceiverLinkInner")])
prop("S05", "Dispositions of the peer change exactly the deliveries they name",
 "A disposition from the peer settles, or sets the state of, exactly the unsettled deliveries whose ids lie in its inclusive range first..last (serial arithmetic; last defaults to first) and whose direction matches its role; no other delivery changes. The outcome is reported to whoever waits for the delivery, whether the disposition comes before or after the wait begins.",
 ["inputs", "histories", "schedules"], Q,
 "Tests settle one delivery at a time with first only; ranges, wrap-around, both roles and dispositions ahead of the wait are not covered.",
 ["src/session.rs", "src/delivery.rs"],
 [("range lookup", "src/session.rs settle_deliveries"), ("waking the waiter", "src/delivery.rs handle_disposition, wait")],
 ["Delivery::wait", "Delivery::remote_state", "Delivery::is_remote_settled"],
 [("unsettled_snd_deliveries, unsettled_rcv_deliveries", "deliveries not settled yet", "src/session.rs SessionInner")])
prop("S06", "A delivery is settled towards the peer exactly once, with the chosen outcome",
 "Settling a delivery sends one disposition with its id, the role of the endpoint, settled and the given state. Nothing is sent for a delivery that the peer has settled already or that was sent or settled before; updating the state sends it unsettled. A delivery that is dropped without being settled is rejected exactly once. Nothing else makes the endpoint send a disposition.",
 ["histories", "schedules"], "all orders of settle, update, wait and drop on a delivery, interleaved with dispositions and detaches of the peer",
 "The combinations of local settlement, remote settlement and drop are orders of events that tests do not enumerate.",
 ["src/delivery.rs", "src/session.rs"],
 [("settlement flags", "src/delivery.rs settle, update_state, drop")],
 ["disposition frames"],
 [("flags", "settled locally / by the peer", "src/delivery.rs Delivery")])
prop("S07", "Links are attached, addressed and detached consistently",
 "Each attach is answered by exactly one attach and each detach by exactly one detach, with the name and handle of that link and the right role. Frames that carry a handle reach the link attached under it and no other, and a frame for a handle that is not attached never changes a link. A handle is not reused until both sides have detached it, and a name is free again when its link is gone. Nothing is sent on a link before it is attached or after its detach.",
 ["histories", "schedules", "inputs"], "all sequences of attach, detach, flow and transfer frames and of attaches and closes by the application on several links, all handles and names",
 "Tests attach one link of each kind and detach it; handle reuse, crossing detaches and several links per session are not covered.",
 ["src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/dispatcher.rs"],
 [("attach", "src/session.rs handle_attach, attach_local_*, attach_remote_*"), ("detach", "src/session.rs handle_detach, detach_*")],
 ["attach, detach, flow and transfer frames", "results of attach() and close()"],
 [("links, links_by_name, remote_handles", "link table", "src/session.rs SessionInner")])
prop("S08", "No operation waits for ever once its link, session or connection is gone",
 "When a link is detached, a session ends or the connection is closed or fails, by either side, every operation that waits on it completes: sends, credit waits, receives, attaches, closes, session ends, session opens and outcomes of deliveries. Operations started afterwards fail at once instead of waiting or sending. The endpoint does not panic.",
 ["histories", "schedules", "faults"], "all kinds and moments of detach, end, close, disconnect and protocol error, with any set of operations in progress",
 "Each waiting operation times each way its context can vanish is a product that tests sample with two or three cases.",
 ["src/session.rs", "src/sndlink.rs", "src/rcvlink.rs", "src/connection.rs", "src/dispatcher.rs", "src/delivery.rs"],
 [("failing what is pending", "src/session.rs set_error, handle_detach; src/sndlink.rs remote_detached, close; src/rcvlink.rs close, remote_detached; src/connection.rs set_error")],
 ["futures returned by the public operations"])
prop("S09", "Channels and sessions are managed consistently",
 "Each begin, end and close is answered exactly once; a session the endpoint opens uses a free channel within the smaller of both channel-max values, and is refused only when none is free. Frames reach the session of their channel and no other; a frame on an unknown channel or for an unknown handle closes the connection instead of being acted on. Nothing is sent on a channel before its begin or after its end, a channel is reused only after both sides have ended it, and opening and ending complete only when the peer has answered.",
 ["histories", "schedules", "inputs"], "all interleavings of begin, end and close frames with sessions opened and ended by the application, all channel numbers and channel-max values",
 "Tests open one session; several sessions, channel reuse, exhaustion and crossing ends are not covered.",
 ["src/connection.rs", "src/session.rs", "src/dispatcher.rs"],
 [("channel tables", "src/connection.rs"), ("session end", "src/session.rs end, set_error")],
 ["begin, end and close frames", "ConnectionRef::open_session", "Session::end"],
 [("sessions, sessions_map", "sessions by local and remote channel", "src/connection.rs ConnectionInner")])
prop("S10", "Connection negotiation announces and honours the limits of both sides",
 "The open the endpoint sends states the configured max-frame-size, channel-max, idle timeout, host name and capabilities; the limits the peer announced are kept and used, and traffic is sent often enough for the peer's idle timeout. With SASL the client sends its credentials and goes on only after an outcome that is ok; a server passes mechanism and responses to the application and sends the outcome chosen. A wrong protocol header, an unexpected frame or a disconnect during negotiation gives an error, never a connection.",
 ["inputs", "histories", "faults"], "all configurations of both sides, all frames in place of the expected one, all points of failure",
 "Tests negotiate with defaults on both sides and never fail the handshake in the middle.",
 ["src/lib.rs", "src/client/connector.rs", "src/server/handshake.rs", "src/server/service.rs", "src/server/sasl.rs", "src/connection.rs", "src/dispatcher.rs"],
 [("building and reading open", "src/lib.rs to_open, RemoteServiceConfig::new"), ("handshake sequences", "src/client/connector.rs, src/server/service.rs, src/server/sasl.rs"), ("keep-alive", "src/dispatcher.rs")],
 ["open frame", "Connector", "Server"])
