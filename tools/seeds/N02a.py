P = "N02"
PRELUDE = "net"
NETF = ["tcp"]
EDITS = [("mpc-net/src/blocking.rs", """                ack_rx
                    .recv_timeout(timeout)
                    .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
""", """                ack_rx.recv_timeout(timeout).unwrap_or_else(|_| {
                    tracing::warn!("timed out flushing send queue for party {to}");
                    Ok(())
                })
""")]
NEEDS = "a configured flush timeout and a peer that has stopped reading, so that the acknowledgement does not come in time"
BREAKS = "a flush that timed out, or whose writer died, is reported as complete"
DEMO = r"""
fn main() {
    let a = free(2);
    let l = TcpListener::bind(a[1]).unwrap();
    let c = NetworkConfigBuilder::new(0, a[0], parties(&a)).flush_timeout(ms(500)).build();
    let h = std::thread::spawn(move || mpc_net::tcp::TcpNetwork::new(c).unwrap());
    let (mut s, _) = l.accept().unwrap();
    let mut hs = [0u8; 16];
    s.read_exact(&mut hs).unwrap();
    let net = h.join().unwrap();
    net.send(1, Bytes::from(vec![1u8; 100])).unwrap();
    net.flush().unwrap();
    // more than the socket buffers hold, to a peer that does not read
    net.send(1, Bytes::from(vec![7u8; 60 << 20])).unwrap();
    assert!(net.flush().is_err(), "flush succeeded although the peer has not taken the data");
    std::process::exit(0);
}
"""
