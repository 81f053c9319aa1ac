P = "N01"
PRELUDE = "net"
NETF = ["tcp"]
EDITS = [("mpc-net/src/blocking.rs", """                let len = u64::from_be_bytes(self.buf[..8].try_into().expect("8 bytes")) as usize;
                if len""", """                let len =
                    u64::from_be_bytes(self.buf[..8].try_into().expect("8 bytes")) as u32 as usize;
                if len""")]
NEEDS = "a peer announcing a frame of 2^32 bytes or more"
BREAKS = "the announced length is cut to 32 bits before it is compared with the maximum: a frame announced with 2^32+3 bytes is delivered as one of 3 bytes"
DEMO = r"""
fn main() {
    let a = free(2);
    let l = TcpListener::bind(a[1]).unwrap();
    let c = NetworkConfigBuilder::new(0, a[0], parties(&a)).timeout(ms(3000)).max_frame_length(1000).build();
    let h = std::thread::spawn(move || mpc_net::tcp::TcpNetwork::new(c).unwrap());
    let (mut s, _) = l.accept().unwrap();
    let mut hs = [0u8; 16];
    s.read_exact(&mut hs).unwrap();
    let net = h.join().unwrap();
    s.write_all(&frame(b"ok")).unwrap();
    assert_eq!(&net.recv(1).unwrap()[..], b"ok");
    s.write_all(&((1u64 << 32) + 3).to_be_bytes()).unwrap();
    s.write_all(b"abc").unwrap();
    assert!(net.recv(1).is_err(), "a frame announced with more than the maximum was delivered");
}
"""
