"""Which contract units, obligations and harness decide which property."""
HARNESS = {
    "codec": dict(dir="harness/codec", bin="hc", timeout=240),
    "session": dict(dir="harness/session", bin="hs", timeout=300),
}
DEPS = [
    "ntex-bytes Bytes/BytesMut/BytePages behave as a byte sequence (contracts assumed; exercised by the native harness)",
    "std HashMap, Vec, str::from_utf8, chrono, uuid, ordered-float as specified in contracts/codec/prelude.vx",
    "machine integers are modelled exactly (u8..u64 with overflow obligations); usize is 64 bit",
    "values are shorter than 4 GiB (wf)",
]
VALS = ["", "codec", "base", "vals"]
PERF = VALS + [r"m_(?!message).*"]
PROPS = {
    "C01": dict(note='Proof for all values: encode produces enc(v), decode of enc(v) followed by any bytes returns v and consumes exactly enc(v). Assumes the contracts of the byte containers, HashMap, chrono, uuid (listed in the evidence); a native random harness exercises those.',
        units=["codec"], modules=VALS, kinds=("post", "pre", "safety"), fns=None, harness="codec", cases=100000, search=6, assumes=DEPS),
    "C02": dict(note='Proof: encoders produce the literal byte forms of the AMQP 1.0 type system, decoders accept every alternate form and reject other format codes and truncated input. Same assumptions as C01.',
        units=["codec"], modules=VALS, kinds=("post", "pre", "safety"), harness="codec", cases=80000, search=6, assumes=DEPS),
    "C03": dict(note='Proof: encoded_size(v) == |enc(v)| and encode appends exactly enc(v), for all values, performatives, frames, sections and messages; size no longer depends on history. Same assumptions as C01.',
        units=["codec"], modules=None, kinds=("post", "pre", "safety"), fns=r"encode|size|Encode|lemma", harness="codec", cases=40000, search=6, assumes=DEPS),
    "C04": dict(note='Proof of absence of overflow, out-of-bounds, panics, unbounded recursion (depth measure) and of allocation bounds for every decode function under contract, for arbitrary bytes. One recorded finding (zero-width array items). Same assumptions as C01.',
        units=["codec"], modules=None, kinds=("pre", "safety"), fns=None, harness="codec", cases=25000, search=5, assumes=DEPS),
    "C05": dict(note='Proof: the frame decoder returns exactly the first event of the stream seen so far, for every buffer, state and maximum; theorem by induction over all ways of cutting a stream. Assumes decoding a frame is a function of its bytes. Same assumptions as C01.',
        units=["codec"], modules=["m_io", "m_framing", "m_frame"], kinds=("post", "pre", "safety"), harness="codec", cases=25000, search=5, assumes=DEPS + ["a frame body decodes as a function of its bytes (trait DetDecode); the decode contracts of C06 leave unspecified which value malformed input gives"]),
    "C06": dict(note='Proof per performative: field order, descriptors, defaults, omission, mandatory fields against tables transcribed from the specification; frame dispatch. Same assumptions as C01.',
        units=["codec"], modules=PERF, kinds=("post", "pre", "safety"), harness="codec", cases=20000, search=5, assumes=DEPS),
    "C07": dict(note='Proof: message sections are written in order and read back, bodies concatenated. Same assumptions as C01.',
        units=["codec"], modules=None, kinds=("post", "pre", "safety"), harness="codec", cases=15000, search=5, assumes=DEPS),
    "C08": dict(note='Proof for all eight-byte headers and all protocol ids. Same assumptions as C01.',
        units=["codec"], modules=["m_protoid"], kinds=("post", "pre", "safety"), harness="codec", cases=60000, search=10, assumes=DEPS),
}

SDEPS = [
    "connection I/O: post_frame appends a frame to the outgoing stream (ghost sequence) or drops it when the connection is gone; the bytes of frames are C01..C06",
    "oneshot and pool channels, Condition, LocalWaker, Slab, HashMap, VecDeque, ByteString, Bytes as specified in contracts/session/prelude.vx",
    "shared cells (ntex_util Cell) are modelled as values: aliases of a link held elsewhere see its updates, and drops of the link guards (EstablishedSenderLink/ReceiverLink) are outside the contracts",
    "at an await of a session, link or connection method the shared state changes arbitrarily within what await_ states (identities and the failed/closed flags are kept); contracts of async methods speak about the state after the last await",
    "IoBoxed::send and recv handle items in order, a failing or ending recv gives no item; the application's handshake service returns an ack made by the crate's own steps from the handshake it was given (Pipeline::call)",
    "the dispatcher's contracts say what the application's services are called with; how their results are polled (poll, ready), timers and task scheduling are exercised by the native harness only",
    "machine integers are modelled exactly; usize is 64 bit",
]
SM = ["", "sess", "dsp", "hsk"]
def S(note, fns, cases=3000, **kw):
    return dict(note=note + " Contract proofs per function for all states and arguments; the native harness (scripted peer against a reference model, random histories) is bounded and not counted.", units=["session"], modules=SM, kinds=("post", "pre", "safety"), fns=fns, harness="session", cases=cases, search=4, thorough=12, assumes=SDEPS, **kw)
PROPS.update({
    "S01": S("apply_flow computes the credit of AMQP 2.6.7 in serial arithmetic; send takes one unit per delivery and only when credit, order and window allow.", r"SenderLinkInner::(new|with|apply_flow|send)|SessionInner::(wait_window|handle_flow|handle_frame|new_remote_sender|send_transfer)|^Flow::|Attach::initial|Dispatcher<.*::call"),
    "S02": S("handle_flow, wait_window and send_transfer keep the window and number deliveries; every flow sent carries the session state.", r"SessionInner::(new|handle_flow|rcv_link_flow|wait_window|send_transfer|handle_frame|id)$|remote_window_size|complete_session_creation|register_remote_session|^Begin::|^Flow::"),
    "S03": S("send_transfer: the frames appended concatenate to the body, fit the frame size, carry the flags; loop invariant over all frames.", r"SessionInner::(send_transfer|max_frame_size)|SenderLinkInner::(send|get_tag|max_message_size|new|with)|TransferBuilder|TransferBody|^Transfer::"),
    "S04": S("handle_transfer, poll_recv, get_delivery, set_link_credit against a queue model.", r"ReceiverLink|SessionInner::(rcv_link_flow|attach_remote_receiver_link|attach_local_receiver_link|confirm_receiver_link|handle_frame)|^Transfer::|Dispatcher<.*::call"),
    "S05": S("settle_deliveries changes exactly the deliveries of the range; wait returns what was recorded.", r"settle_deliveries|DeliveryInner|Delivery::(wait|remote_state|is_remote_settled|new_rcv|check_inner|id|tag)|SessionInner::handle_frame|^Disposition::|unsettled_deliveries"),
    "S06": S("settle, update_state and drop send at most the one disposition due.", r"Delivery::|DeliveryInner|Drop for"),
    "S07": S("attach and detach keep the link tables consistent; frames are routed by remote handle.", r"SessionInner::(attach|detach|handle_attach|handle_detach|get_|new_remote_sender|confirm_receiver_link|handle_frame)|ReceiverLink(Inner)?::(new|attached|detached|close|handle|confirm)|SenderLinkInner::(new|with|close|remote_detached)|LinkState|^Attach::|^Detach::|Dispatcher<.*::call|Dispatcher<.*::handle_control_frame|Session::detach_|SenderLink::close|Error::(condition|description)|ControlFrame::new"),
    "S08": S("every function that ends a link, session or connection resolves what waits on it.", r"set_error|SessionInner::(end|wait_window|send_transfer|handle_detach|detach|attach_)|remote_detached|close|detached|SenderLinkInner::send|open_session|Session::end|Delivery::wait|poll_recv|ConnectionRef|ConnectionInner|Dispatcher<.*::call|Dispatcher<.*::(handle_control_frame|shutdown)|Session::detach_|ControlFrame::new"),
    "S09": S("channel tables, begin, end and close handling.", r"ConnectionRef|ConnectionInner|open_session|Session::(new|end|local|remote_channel)|SessionInner::(new|end|set_error|id)$|^Begin::|SessionState|Connection::new|Dispatcher<.*::call|Dispatcher<.*::(handle_control_frame|shutdown)"),
    "S10": S("every step of the negotiation on both sides: what is sent is allowed at that point (also on paths that fail later), a connection comes only out of the complete exchange, the open sent states the configuration, the limits kept are the peer's; the keep-alive period of the dispatcher.", r"AmqpServiceConfig|RemoteServiceConfig|Connection::new|^Open::|max_frame_size|connect_plain_inner|connect_sasl_inner|ConnectorService|Client(<St>)?::|Connect<|ServerHandler|Connection::get_ref|^Sasl|^Handshake|handshake_|Dispatcher<.*::new", cases=350),
})
NOT_APPLICABLE = {
}
