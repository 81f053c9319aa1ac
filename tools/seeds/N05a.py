P = "N05"
PRELUDE = "net"
NETF = ["tcp"]
EDITS = [("mpc-net/src/blocking.rs", """            recv: IntMap::new(),
            timeout,
            flush_timeout,
""", """            recv: IntMap::new(),
            timeout: timeout.or(flush_timeout),
            flush_timeout,
""")]
NEEDS = "a flush timeout configured without a receive timeout, and a peer that takes longer than it to answer"
BREAKS = "the flush timeout bounds receives for which no timeout is configured"
DEMO = r"""
fn main() {
    let a = free(2);
    let l = TcpListener::bind(a[1]).unwrap();
    let c = NetworkConfigBuilder::new(0, a[0], parties(&a)).flush_timeout(ms(200)).build();
    let h = std::thread::spawn(move || mpc_net::tcp::TcpNetwork::new(c).unwrap());
    let (mut s, _) = l.accept().unwrap();
    let net = h.join().unwrap();
    let w = std::thread::spawn(move || { std::thread::sleep(ms(1500)); s.write_all(&frame(b"late")).unwrap(); s });
    assert_eq!(&net.recv(1).expect("receive gave up although no receive timeout is configured")[..], b"late");
    w.join().unwrap();
}
"""
