//! What the log and the output of the proxy give away (C27).
use simcore::harness::Ctx;
use simcore::{probe, secrets};

use crate::world::Cert;

fn arm() {
    secrets::arm("C27");
    for c in [Cert::Chain, Cert::Direct, Cert::Other, Cert::Rogue] {
        secrets::also(simpeer::key_der(c.pem().1).secret_der());
    }
    simcore::logs::set(2);
}

macro_rules! with_secret {
    ($($name:ident = $run:path),*) => {$(
        /// The same scenario, with passwords, authentication data and broken messages that
        /// contain a recognisable secret, and with logging.
        pub fn $name(ctx: &Ctx) {
            arm();
            $run(ctx);
            if secrets::searched() > 0 {
                probe("secret.searched");
            }
        }
    )*};
}
with_secret!(
    forward = crate::forward::forward,
    exchanges = crate::forward::exchanges,
    refused = crate::forward::refused,
    server_closes = crate::forward::server_closes,
    isolation = crate::isolate::isolation,
    configured = crate::configured::configured,
    unusable = crate::configured::unusable,
    wrong_server = crate::configured::wrong_server
);
