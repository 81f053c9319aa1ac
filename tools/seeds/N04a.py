P = "N04"
PRELUDE = "net"
NETF = ["tcp"]
EDITS = [("mpc-net/src/tcp.rs", """                        let i = stream.read_u64::<BigEndian>()? as usize;
                        let other_id""", """                        let net_id = stream.read_u64::<BigEndian>()? as usize;
                        tracing::debug!("accepted connection for net {net_id}");
                        let other_id""")]
NEEDS = "several parallel networks, and a party whose connection for a later network arrives while an earlier one is still being set up"
BREAKS = "an accepted connection is registered in the network being set up, not in the one the peer announced"
DEMO = r"""
fn main() {
    let a = free(3);
    let c = NetworkConfigBuilder::new(2, a[2], parties(&a)).timeout(ms(3000)).connect_timeout(ms(20000)).build();
    let h = std::thread::spawn(move || mpc_net::tcp::TcpNetwork::networks::<2>(c).unwrap());
    // party 0 is quick: its connection for the second network arrives before party 1's for the first
    let mut ss = vec![];
    for (i, id) in [(0u64, 0u64), (1, 0), (0, 1), (1, 1)] {
        let mut s = connect(a[2]);
        s.write_all(&i.to_be_bytes()).unwrap();
        s.write_all(&id.to_be_bytes()).unwrap();
        s.write_all(&frame(&[i as u8, id as u8])).unwrap();
        ss.push(s);
        std::thread::sleep(ms(100));
    }
    let [n0, n1] = h.join().unwrap();
    for id in 0..2 {
        assert_eq!(&n0.recv(id).expect("no connection")[..], &[0, id as u8], "network 0, party {id}");
        assert_eq!(&n1.recv(id).expect("no connection")[..], &[1, id as u8], "network 1, party {id}");
    }
}
"""
