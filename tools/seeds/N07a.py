P = "N07"
PRELUDE = "net"
NETF = ["tls"]
DEPS = "rcgen = { workspace = true }\nrustls = { workspace = true }\n"
f = "mpc-net/src/tls.rs"
EDITS = [(f, """        let client_config = ClientConfig::builder()
            .with_root_certificates(root_store)
            .with_no_client_auth();
""", """        let client_config = ClientConfig::builder()
            .dangerous()
            .with_custom_certificate_verifier(Arc::new(PartyVerifier(
                WebPkiServerVerifier::builder(Arc::new(root_store)).build()?,
            )))
            .with_no_client_auth();
"""), (f, """/// A MPC network using [TlsStream]s
#[derive(Debug)]
""", """/// Verifies the certificates of parties that are reached by their IP address
#[derive(Debug)]
struct PartyVerifier(Arc<WebPkiServerVerifier>);

impl ServerCertVerifier for PartyVerifier {
    fn verify_server_cert(
        &self,
        end_entity: &CertificateDer<'_>,
        intermediates: &[CertificateDer<'_>],
        server_name: &ServerName<'_>,
        ocsp_response: &[u8],
        now: UnixTime,
    ) -> Result<ServerCertVerified, rustls::Error> {
        match self.0.verify_server_cert(
            end_entity,
            intermediates,
            server_name,
            ocsp_response,
            now,
        ) {
            // parties are often reached by an address that is not in their certificate
            Err(rustls::Error::InvalidCertificate(
                CertificateError::NotValidForName | CertificateError::NotValidForNameContext { .. },
            )) if matches!(server_name, ServerName::IpAddress(_)) => {
                Ok(ServerCertVerified::assertion())
            }
            x => x,
        }
    }

    fn verify_tls12_signature(
        &self,
        message: &[u8],
        cert: &CertificateDer<'_>,
        dss: &DigitallySignedStruct,
    ) -> Result<HandshakeSignatureValid, rustls::Error> {
        self.0.verify_tls12_signature(message, cert, dss)
    }

    fn verify_tls13_signature(
        &self,
        message: &[u8],
        cert: &CertificateDer<'_>,
        dss: &DigitallySignedStruct,
    ) -> Result<HandshakeSignatureValid, rustls::Error> {
        self.0.verify_tls13_signature(message, cert, dss)
    }

    fn supported_verify_schemes(&self) -> Vec<SignatureScheme> {
        self.0.supported_verify_schemes()
    }
}

/// A MPC network using [TlsStream]s
#[derive(Debug)]
"""), (f, """use rustls::{
    ClientConfig, ClientConnection, RootCertStore, ServerConfig, ServerConnection, StreamOwned,
    pki_types::ServerName,
};
""", """use rustls::{
    CertificateError, ClientConfig, ClientConnection, DigitallySignedStruct, RootCertStore,
    ServerConfig, ServerConnection, SignatureScheme, StreamOwned,
    client::{
        WebPkiServerVerifier,
        danger::{HandshakeSignatureValid, ServerCertVerified, ServerCertVerifier},
    },
    pki_types::{CertificateDer, ServerName, UnixTime},
};
""")]
NEEDS = "a party reached by its IP address that presents a configured certificate issued for another name"
BREAKS = "the client accepts the certificate although it is not valid for the party it connects to"
DEMO = r"""
use rustls::pki_types::{PrivateKeyDer, PrivatePkcs8KeyDer};
fn go(name1: &str) -> bool {
    let a = free(2);
    let ks: Vec<_> = ["127.0.0.1", name1].iter().map(|n| rcgen::generate_simple_self_signed([n.to_string()]).unwrap()).collect();
    let certs: Vec<_> = ks.iter().map(|k| k.cert.der().clone()).collect();
    let mut hs = vec![];
    for (i, k) in ks.into_iter().enumerate() {
        let key = PrivateKeyDer::Pkcs8(PrivatePkcs8KeyDer::from(k.key_pair.serialize_der()));
        let c = NetworkConfigBuilder::new(i, a[i], parties(&a)).timeout(ms(5000)).connect_timeout(ms(5000)).tls_config(TlsConfig::new(key, certs.clone())).build();
        hs.push(std::thread::spawn(move || mpc_net::tls::TlsNetwork::new(c).and_then(|n| { n.send(1 - i, Bytes::from(vec![i as u8]))?; n.recv(1 - i)?; n.flush()?; std::thread::sleep(ms(300)); Ok(()) })));
    }
    hs.remove(0).join().unwrap().is_ok()
}
fn main() {
    rustls::crypto::aws_lc_rs::default_provider().install_default().unwrap();
    assert!(go("127.0.0.1"), "the connection with matching certificates failed");
    assert!(!go("party1.example"), "a certificate for another name was accepted");
    std::process::exit(0);
}
"""
