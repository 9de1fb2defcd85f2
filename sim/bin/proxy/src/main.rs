mod configured;
mod conn;
mod forward;
mod isolate;
mod secret;
mod world;

use simcore::harness::{self, Ctx, Prop, Scenario};

fn s(name: &'static str, run: fn(&Ctx), share: u32) -> Scenario {
    Scenario { name, run, share }
}

/// Scenarios by name with their shares.
fn pick(list: &[(&'static str, u32)]) -> Vec<Scenario> {
    let all: &[(&'static str, fn(&Ctx))] = &[
        ("forward", forward::forward),
        ("exchanges", forward::exchanges),
        ("unsolicited", forward::unsolicited),
        ("capabilities", forward::capabilities),
        ("refused", forward::refused),
        ("server_closes", forward::server_closes),
        ("client_closes", forward::client_closes),
        ("isolation", isolate::isolation),
        ("concurrent", isolate::concurrent),
        ("bulk", forward::bulk),
        ("configured", configured::configured),
        ("parsed", configured::parsed),
        ("unusable", configured::unusable),
        ("wrong_server", configured::wrong_server),
        ("plain_client", configured::plain_client),
        ("secret_forward", secret::forward),
        ("secret_exchanges", secret::exchanges),
        ("secret_refused", secret::refused),
        ("secret_server_closes", secret::server_closes),
        ("secret_isolation", secret::isolation),
        ("secret_configured", secret::configured),
        ("secret_unusable", secret::unusable),
        ("secret_wrong_server", secret::wrong_server),
    ];
    list.iter()
        .map(|(n, share)| {
            let (_, run) = all.iter().find(|(m, _)| m == n).expect("known scenario");
            s(n, *run, *share)
        })
        .collect()
}

const REAL: &[&str] = &[
    "proxy/src/main.rs, proxy/src/proxy.rs, proxy/src/util.rs, proxy/src/config.rs",
    "src/stream.rs, src/client.rs, src/client_send.rs, src/server.rs, src/server_send.rs, src/receive.rs, src/types.rs, src/handle.rs",
    "rustls 0.23.46 with ring (sessions, records, certificates), toml, serde",
];
const STUB: &[&str] = &[
    "TCP transport, name resolution, task scheduling, timers, files, standard output, arguments (simulated)",
    "tokio, tokio-rustls, argh, colored, tracing-subscriber, rustls-pemfile, rustls-native-certs (offline stand-ins)",
    "imap-codec, imap-types, bounded-static (offline stand-ins)",
    "mail clients and mail servers (scripted, drawn)",
];
const ASSUME: &[&str] = &[
    "messages come from the generators of the stand-in codec: every framing shape (lines, literals, literal+, AUTHENTICATE, IDLE), a subset of IMAP's command and response grammar",
    "the transport is reliable and ordered per connection (TCP); delay, partial transfer, stall, reset, refusal, close and I/O errors are injected",
    "the well-behaved client and server follow the protocol; nothing is claimed for messages between two sides of which one does not",
    "the stand-ins follow the documented contracts of the originals",
];

struct P {
    id: &'static str,
    scenarios: &'static [(&'static str, u32)],
    runs: (u64, u64),
    nontrivial: &'static str,
    rule: &'static str,
}

fn main() {
    let props = [
        P {
            id: "C17",
            scenarios: &[
                ("forward", 10),
                ("exchanges", 6),
                ("unsolicited", 2),
                ("capabilities", 1),
                ("refused", 2),
                ("client_closes", 4),
                ("server_closes", 1),
                ("isolation", 1),
                ("bulk", 1),
            ],
            runs: (80_000, 4_000_000),
            nontrivial: "proxy.session-complete|proxy.client-close-complete",
            rule: "a run in which a whole session was forwarded to its end",
        },
        P {
            id: "C18",
            scenarios: &[("capabilities", 10), ("exchanges", 4), ("unsolicited", 4), ("forward", 1), ("refused", 1)],
            runs: (80_000, 4_000_000),
            nontrivial: "proxy.capability-removed",
            rule: "a run in which the server announced a capability the proxy has to remove",
        },
        P {
            id: "C19",
            scenarios: &[("isolation", 10), ("concurrent", 4), ("wrong_server", 1), ("plain_client", 1), ("configured", 1)],
            runs: (50_000, 2_500_000),
            nontrivial: "proxy.isolated",
            rule: "a run in which well-behaved sessions completed next to misbehaving ones",
        },
        P {
            id: "C20",
            scenarios: &[("configured", 6), ("parsed", 6), ("unusable", 6), ("wrong_server", 4), ("plain_client", 4)],
            runs: (100_000, 6_000_000),
            nontrivial: "config.used|config.parsed|config.unusable-refused|config.wrong-server-avoided|config.plain-refused|config.identity-refused",
            rule: "a run in which a configuration was put to use, or refused, as it should be",
        },
        P {
            id: "C22",
            scenarios: &[("server_closes", 10), ("client_closes", 2), ("forward", 1)],
            runs: (80_000, 4_000_000),
            nontrivial: "proxy.server-close-complete|proxy.client-close-complete",
            rule: "a run in which one side closed and everything sent before arrived",
        },
        P {
            id: "C25",
            scenarios: &[("refused", 10), ("forward", 1)],
            runs: (80_000, 4_000_000),
            nontrivial: "proxy.refused|proxy.refused-with-alert",
            rule: "a run in which the server refused a literal",
        },
        P {
            id: "C27",
            scenarios: &[
                ("secret_forward", 6),
                ("secret_exchanges", 6),
                ("secret_refused", 3),
                ("secret_server_closes", 2),
                ("secret_isolation", 2),
                ("secret_configured", 1),
                ("secret_unusable", 1),
                ("secret_wrong_server", 1),
            ],
            runs: (30_000, 2_000_000),
            nontrivial: "secret.searched",
            rule: "a run with secrets in which the proxy logged or printed something, all of which was searched for them",
        },
    ];
    let props = props
        .into_iter()
        .map(|p| Prop {
            id: p.id,
            scenarios: pick(p.scenarios),
            quick_runs: p.runs.0,
            thorough_runs: p.runs.1,
            nontrivial: p.nontrivial,
            rule: p.rule,
            assumptions: ASSUME,
            level: "exploration",
            real: REAL,
            stub: STUB,
        })
        .collect();
    harness::main(props);
}
