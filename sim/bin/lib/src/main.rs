use simcore::harness::{self, Ctx, Prop, Scenario};
use simscen::{client, secret, server, session, stream};

fn s(name: &'static str, run: fn(&Ctx), share: u32) -> Scenario {
    Scenario { name, run, share }
}

/// Scenarios by name with their shares.
fn pick(list: &[(&'static str, u32)]) -> Vec<Scenario> {
    let all: &[(&'static str, fn(&Ctx))] = &[
        ("client_any", client::client_any),
        ("client_literals", client::client_literals),
        ("client_exchanges", client::client_exchanges),
        ("client_big", client::client_big),
        ("server_any", server::server_any),
        ("server_limits", server::server_limits),
        ("server_exchanges", server::server_exchanges),
        ("server_big", server::server_big),
        ("server_defaults", server::server_defaults),
        ("stream_carry", stream::stream_carry),
        ("stream_ends", stream::stream_ends),
        ("stream_faults", stream::stream_faults),
        ("stream_bulk", stream::stream_bulk),
        ("session", session::session),
        ("session_bulk", session::session_bulk),
        ("session_cut", session::session_cut),
        ("secret_client_any", secret::client_any),
        ("secret_client_literals", secret::client_literals),
        ("secret_client_exchanges", secret::client_exchanges),
        ("secret_server_any", secret::server_any),
        ("secret_server_exchanges", secret::server_exchanges),
        ("secret_server_limits", secret::server_limits),
        ("secret_session", secret::session),
        ("secret_stream", secret::through_stream),
    ];
    list.iter()
        .map(|(n, share)| {
            let (_, run) = all.iter().find(|(m, _)| m == n).expect("known scenario");
            s(n, *run, *share)
        })
        .collect()
}

const CLIENT: &str = "src/client.rs, src/client_send.rs";
const SERVER: &str = "src/server.rs, src/server_send.rs";
const RECEIVE: &str = "src/receive.rs, src/types.rs, src/handle.rs, src/lib.rs";
const STREAM: &str = "src/stream.rs";
const RUSTLS: &str = "rustls 0.23.46 with ring (sessions, records, certificates)";
const CODEC: &str = "imap-codec, imap-types, bounded-static (offline stand-ins)";
const DRIVER: &str = "driver and peer (drawn API calls and bytes)";
const NET: &str = "TCP transport, task scheduler, timers (simulated)";
const TOKIO: &str = "tokio, tokio-rustls (offline stand-ins over the simulated transport)";

const LOCK_ASSUME: &[&str] = &[
    "messages come from the generators of the stand-in codec: every framing shape (lines, literals, literal+, AUTHENTICATE, IDLE), a subset of IMAP's command and response grammar",
    "one driver thread per state machine (the types are not shared between threads)",
];
const NET_ASSUME: &[&str] = &[
    "the transport is reliable and ordered per connection (TCP); loss and reordering below TCP are not modelled, delay, partial transfer, stall, reset, close and I/O errors are",
    "the stand-in tokio and tokio-rustls follow the documented contracts of the originals",
];

struct P {
    id: &'static str,
    scenarios: &'static [(&'static str, u32)],
    runs: (u64, u64),
    nontrivial: &'static str,
    rule: &'static str,
}

fn main() {
    let lockstep = [
        P {
            id: "C01",
            scenarios: &[
                ("client_any", 10),
                ("client_literals", 6),
                ("client_exchanges", 4),
                ("client_big", 1),
                ("server_any", 10),
                ("server_limits", 6),
                ("server_exchanges", 4),
                ("server_big", 1),
            ],
            runs: (480_000, 12_000_000),
            nontrivial: "client.data|client.status|client.continuation|server.command|server.authenticate-data",
            rule: "a run in which at least one message arrived in drawn pieces and was reported",
        },
        P {
            id: "C02",
            scenarios: &[
                ("client_any", 10),
                ("client_exchanges", 3),
                ("server_any", 10),
                ("server_limits", 10),
                ("server_exchanges", 3),
            ],
            runs: (480_000, 12_000_000),
            nontrivial: "client.bare-lf-error|client.malformed-error|server.bare-lf-error|server.malformed-error|server.literal-too-long-error|server.command-too-long-error",
            rule: "a run in which at least one message was refused",
        },
        P {
            id: "C03",
            scenarios: &[
                ("client_any", 10),
                ("client_literals", 8),
                ("client_exchanges", 6),
                ("client_big", 1),
                ("session", 4),
                ("session_bulk", 1),
            ],
            runs: (320_000, 10_000_000),
            nontrivial: "client.sent-something|session.command-finished",
            rule: "a run in which the client handed out bytes of at least one command",
        },
        P {
            id: "C04",
            scenarios: &[
                ("client_any", 8),
                ("client_exchanges", 4),
                ("server_any", 8),
                ("server_limits", 4),
                ("server_exchanges", 4),
                ("server_big", 1),
                ("session", 4),
                ("session_bulk", 1),
            ],
            runs: (320_000, 10_000_000),
            nontrivial: "server.response-sent|client.data|client.status|session.command-finished",
            rule: "a run in which at least one response was sent or received",
        },
        P {
            id: "C05",
            scenarios: &[("client_literals", 10), ("client_any", 4), ("client_big", 1), ("client_exchanges", 1)],
            runs: (480_000, 12_000_000),
            nontrivial: "client.command-rejected|client.literal-continued",
            rule: "a run in which a command stopped at a synchronizing literal and was continued or rejected",
        },
        P {
            id: "C06",
            scenarios: &[("server_limits", 12), ("server_any", 4), ("server_big", 1), ("server_exchanges", 2), ("server_defaults", 1)],
            runs: (480_000, 12_000_000),
            nontrivial: "server.literal-too-long-error|server.command-too-long-error|server.literal-accepted",
            rule: "a run in which a literal was announced or a limit was exceeded",
        },
        P {
            id: "C07",
            scenarios: &[("client_exchanges", 10), ("server_exchanges", 10), ("client_any", 2), ("server_any", 2), ("session", 2)],
            runs: (480_000, 12_000_000),
            nontrivial: "client.authenticate-started|server.authenticate",
            rule: "a run in which an AUTHENTICATE exchange was started",
        },
        P {
            id: "C08",
            scenarios: &[("client_exchanges", 10), ("server_exchanges", 10), ("client_any", 2), ("server_any", 2)],
            runs: (480_000, 12_000_000),
            nontrivial: "client.idle-sent|server.idle",
            rule: "a run in which an IDLE exchange was started",
        },
        P {
            id: "C09",
            scenarios: &[
                ("client_any", 8),
                ("client_literals", 4),
                ("client_exchanges", 4),
                ("server_any", 8),
                ("server_limits", 6),
                ("server_exchanges", 4),
            ],
            runs: (480_000, 12_000_000),
            nontrivial: "client.sent-something|server.response-sent",
            rule: "a run in which something was sent and input was asked for afterwards",
        },
        P {
            id: "C16",
            scenarios: &[
                ("client_any", 10),
                ("client_literals", 3),
                ("client_exchanges", 4),
                ("client_big", 1),
                ("server_any", 10),
                ("server_limits", 6),
                ("server_exchanges", 4),
                ("server_big", 1),
            ],
            runs: (480_000, 12_000_000),
            nontrivial: "client.recovered|server.recovered",
            rule: "a run of arbitrary input and calls after which a well-formed exchange was completed",
        },
        P {
            id: "C23",
            scenarios: &[("client_any", 10), ("client_exchanges", 2), ("client_literals", 2)],
            runs: (480_000, 12_000_000),
            nontrivial: "client.waited-for-greeting",
            rule: "a run in which a command was enqueued and input was asked for before the greeting",
        },
        P {
            id: "C24",
            scenarios: &[
                ("client_any", 10),
                ("client_literals", 3),
                ("client_exchanges", 4),
                ("server_any", 10),
                ("server_limits", 6),
                ("server_exchanges", 6),
            ],
            runs: (480_000, 12_000_000),
            nontrivial: "client.bare-lf-error|server.bare-lf-error|client.bare-lf-accepted|server.bare-lf-accepted",
            rule: "a run in which a line ended in a bare line feed",
        },
    ];
    let net = [
        P {
            id: "C26",
            scenarios: &[
                ("secret_client_any", 6),
                ("secret_client_literals", 3),
                ("secret_client_exchanges", 6),
                ("secret_server_any", 8),
                ("secret_server_exchanges", 6),
                ("secret_server_limits", 6),
                ("secret_session", 2),
                ("secret_stream", 4),
            ],
            runs: (160_000, 6_000_000),
            nontrivial: "secret.searched",
            rule: "a run in which something that was printed or logged was searched for the secret of the run",
        },
        P {
            id: "C11",
            scenarios: &[("stream_carry", 10), ("stream_ends", 3), ("stream_faults", 3), ("stream_bulk", 1), ("session", 4), ("session_bulk", 1)],
            runs: (120_000, 4_000_000),
            nontrivial: "stream.message|session.complete",
            rule: "a run in which bytes were exchanged through a stream",
        },
        P {
            id: "C12",
            scenarios: &[("stream_carry", 10), ("stream_ends", 2), ("stream_bulk", 1), ("session", 6), ("session_bulk", 1)],
            runs: (120_000, 4_000_000),
            nontrivial: "cancelled",
            rule: "a run in which at least one pending operation was dropped at an await point",
        },
        P {
            id: "C13",
            scenarios: &[
                ("stream_carry", 10),
                ("stream_ends", 5),
                ("stream_faults", 3),
                ("stream_bulk", 2),
                ("session", 4),
                ("session_bulk", 1),
                ("session_cut", 3),
            ],
            runs: (120_000, 4_000_000),
            nontrivial: "tls",
            rule: "a run over TLS",
        },
        P {
            id: "C14",
            scenarios: &[("stream_ends", 10), ("stream_faults", 10), ("session_cut", 10), ("stream_carry", 1), ("session", 1)],
            runs: (120_000, 4_000_000),
            nontrivial: "stream.orderly-end|stream.truncated|session.cut-reported|stream.error.io|stream.error.tls|stream.error.closed",
            rule: "a run in which the connection ended or failed",
        },
        P {
            id: "C15",
            scenarios: &[("stream_bulk", 10), ("session_bulk", 4)],
            runs: (50_000, 1_500_000),
            nontrivial: "stream.bulk-exchanged|session.complete",
            rule: "a run in which both sides had more to send than the buffers between them hold",
        },
    ];
    let mut props = Vec::new();
    for p in lockstep {
        let with_net = p.scenarios.iter().any(|(n, _)| n.starts_with("session"));
        props.push(Prop {
            id: p.id,
            scenarios: pick(p.scenarios),
            quick_runs: p.runs.0,
            thorough_runs: p.runs.1,
            nontrivial: p.nontrivial,
            rule: p.rule,
            assumptions: LOCK_ASSUME,
            level: "exploration",
            real: if with_net { &[CLIENT, SERVER, RECEIVE, STREAM, RUSTLS] } else { &[CLIENT, SERVER, RECEIVE] },
            stub: if with_net { &[DRIVER, CODEC, NET, TOKIO] } else { &[DRIVER, CODEC] },
        });
    }
    for p in net {
        props.push(Prop {
            id: p.id,
            scenarios: pick(p.scenarios),
            quick_runs: p.runs.0,
            thorough_runs: p.runs.1,
            nontrivial: p.nontrivial,
            rule: p.rule,
            assumptions: NET_ASSUME,
            level: "exploration",
            real: &[STREAM, CLIENT, SERVER, RECEIVE, RUSTLS],
            stub: &[NET, TOKIO, CODEC, DRIVER],
        });
    }
    harness::main(props);
}
