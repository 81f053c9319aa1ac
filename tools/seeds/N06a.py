P = "N06"
PRELUDE = "net"
NETF = ["tcp-session-blocking"]
f = "mpc-net/src/tcp_session_blocking.rs"
EDITS = [(f, "streams: Arc<Mutex<HashMap<(u128, usize), (MaybeTcpStream, Instant)>>>", "streams: Arc<Mutex<HashMap<(u64, usize), (MaybeTcpStream, Instant)>>>"),
 (f, """        timeout: Option<Duration>,
    ) -> eyre::Result<TcpStream> {
""", """        timeout: Option<Duration>,
    ) -> eyre::Result<TcpStream> {
        let session_id = session_id as u64;
"""),
 (f, "        let session_id = stream.read_u128::<NetworkEndian>()?;\n", "        let session_id = stream.read_u128::<NetworkEndian>()? as u64;\n")]
NEEDS = "two session ids that differ only in their upper 64 bits"
BREAKS = "streams are kept under the lower half of the session id, so that two sessions get each other's streams"
DEMO = r"""
use mpc_net::tcp_session_blocking as ts;
fn main() {
    let a = free(2);
    let c = ts::NetworkConfig { party_id: 0, bind_addr: a[0], node_addrs: a.iter().map(|a| a.to_string()).collect(), init_session_timeout: Some(ms(3000)), timeout: Some(ms(3000)),
        flush_timeout: None, time_to_idle: Duration::from_secs(30), max_frame_length: 1 << 20 };
    let h = make(c);
    let (x, y) = (5u128, 5u128 + (1 << 64));
    let mut s = connect(a[0]);
    s.write_all(&y.to_be_bytes()).unwrap();
    s.write_all(&1u64.to_be_bytes()).unwrap();
    s.write_all(&frame(b"y")).unwrap();
    std::thread::sleep(ms(500));
    assert!(h.init_session(x).is_err(), "session {x} was given the stream of session {y}");
    let n = h.init_session(y).expect("no stream for the session");
    assert_eq!(&n.recv(1).unwrap()[..], b"y");
}
fn make(c: ts::NetworkConfig) -> ts::TcpNetworkHandler { ts::TcpNetworkHandler::new(c).unwrap() }
"""
