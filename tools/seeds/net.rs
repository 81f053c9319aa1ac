#![allow(unused)]
use bytes::Bytes;
use mpc_net::config::{Address, NetworkConfig, NetworkConfigBuilder, NetworkParty, TlsConfig};
use mpc_net::{ConnectionStats, Network};
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, ToSocketAddrs};
use std::time::{Duration, Instant};
fn ms(n: u64) -> Duration { Duration::from_millis(n) }
/// addresses on this host that are free at the moment
fn free(n: usize) -> Vec<SocketAddr> {
    let l: Vec<_> = (0..n).map(|_| TcpListener::bind("127.0.0.1:0").unwrap()).collect();
    l.iter().map(|l| l.local_addr().unwrap()).collect()
}
fn parties(a: &[SocketAddr]) -> Vec<NetworkParty> {
    a.iter().enumerate().map(|(i, a)| NetworkParty::new(i, Address::new("127.0.0.1".to_string(), a.port()))).collect()
}
fn connect(a: SocketAddr) -> TcpStream {
    let t = Instant::now();
    loop {
        match TcpStream::connect(a) {
            Ok(s) => { s.set_nodelay(true).unwrap(); return s }
            Err(e) if t.elapsed() > Duration::from_secs(20) => panic!("{e}"),
            Err(_) => std::thread::sleep(ms(20)),
        }
    }
}
fn frame(data: &[u8]) -> Vec<u8> { let mut v = (data.len() as u64).to_be_bytes().to_vec(); v.extend_from_slice(data); v }
