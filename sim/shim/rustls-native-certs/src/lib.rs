//! Stand-in: the "system trust store" holds the simulation's own certificate authority.
use std::io;

use rustls::pki_types::CertificateDer;

pub fn load_native_certs() -> Result<Vec<CertificateDer<'static>>, io::Error> {
    Ok(vec![CertificateDer::from(include_bytes!("../../../certs/ca.der").to_vec())])
}
