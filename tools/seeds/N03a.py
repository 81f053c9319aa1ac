P = "N03"
PRELUDE = "net"
NETF = ["tcp"]
EDITS = [("mpc-net/src/blocking.rs", """        if data.len() > self.max_frame_length {
            eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
        }
        let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
""", """        let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
        if data.len() > self.max_frame_length {
            eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
        }
""")]
NEEDS = "a message that is refused for its length"
BREAKS = "the bytes of a refused message are counted as sent"
DEMO = r"""
fn main() {
    let a = free(2);
    let l = TcpListener::bind(a[1]).unwrap();
    let c = NetworkConfigBuilder::new(0, a[0], parties(&a)).timeout(ms(3000)).max_frame_length(1000).build();
    let h = std::thread::spawn(move || mpc_net::tcp::TcpNetwork::new(c).unwrap());
    let (mut s, _) = l.accept().unwrap();
    let net = h.join().unwrap();
    net.send(1, Bytes::from(vec![1u8; 100])).unwrap();
    assert!(net.send(1, Bytes::from(vec![1u8; 1001])).is_err());
    assert_eq!(net.get_connection_stats().get(1), Some((100, 0)), "the refused message was counted");
}
"""
