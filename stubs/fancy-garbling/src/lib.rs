//! Type surface of swanky's fancy-garbling that co-snarks uses. The bodies are never analysed nor run: the analysis models calls to them by name.
use scuttlebutt::Block;
pub mod errors {
    #[derive(Debug)]
    pub enum FancyError { InvalidArg(String), Other }
    impl std::fmt::Display for FancyError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    #[derive(Debug)]
    pub enum GarblerError { CommunicationError(String), FancyError(FancyError), DeltaRequired, TruthTableRequired, AsymmetricHalfGateModuliMax8(u16) }
    #[derive(Debug)]
    pub enum EvaluatorError { CommunicationError(String), DecodingFailed, FancyError(FancyError) }
    impl From<FancyError> for GarblerError { fn from(x: FancyError) -> Self { GarblerError::FancyError(x) } }
    impl From<FancyError> for EvaluatorError { fn from(x: FancyError) -> Self { EvaluatorError::FancyError(x) } }
    impl std::fmt::Display for GarblerError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::fmt::Display for EvaluatorError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for FancyError {}
    impl std::error::Error for GarblerError {}
    impl std::error::Error for EvaluatorError {}
}
pub use errors::FancyError;
pub mod util {
    use scuttlebutt::Block;
    pub fn tweak2(_i: u64, _j: u64) -> Block { unimplemented!() }
    pub fn output_tweak(_i: usize, _k: u16) -> Block { unimplemented!() }
}
pub trait HasModulus { fn modulus(&self) -> u16; }
pub trait Fancy {
    type Item: Clone + HasModulus;
    type Error: std::fmt::Debug + std::fmt::Display + From<FancyError>;
    fn constant(&mut self, x: u16, q: u16) -> Result<Self::Item, Self::Error>;
    fn output(&mut self, x: &Self::Item) -> Result<Option<u16>, Self::Error>;
    fn outputs(&mut self, _xs: &[Self::Item]) -> Result<Option<Vec<u16>>, Self::Error> { unimplemented!() }
}
pub trait FancyBinary: Fancy {
    fn and(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn xor(&mut self, x: &Self::Item, y: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn negate(&mut self, x: &Self::Item) -> Result<Self::Item, Self::Error>;
    fn mux(&mut self, _b: &Self::Item, _x: &Self::Item, _y: &Self::Item) -> Result<Self::Item, Self::Error> { unimplemented!() }
    fn or(&mut self, _x: &Self::Item, _y: &Self::Item) -> Result<Self::Item, Self::Error> { unimplemented!() }
}
pub trait WireLabel: Clone + HasModulus {
    fn as_block(&self) -> Block;
    fn color(&self) -> u16;
    fn from_block(inp: Block, q: u16) -> Self;
    fn zero(q: u16) -> Self;
    fn plus(&self, other: &Self) -> Self;
    fn plus_mov(self, other: &Self) -> Self;
    fn plus_eq<'a>(&'a mut self, other: &Self) -> &'a mut Self;
    fn cmul(&self, c: u16) -> Self;
    fn negate(&self) -> Self;
    fn minus(&self, other: &Self) -> Self;
    fn rand<R: rand::CryptoRng + rand::Rng>(rng: &mut R, q: u16) -> Self;
    fn rand_delta<R: rand::CryptoRng + rand::Rng>(rng: &mut R, q: u16) -> Self;
    fn hash_to_mod(hash: Block, q: u16) -> Self;
    fn hash(&self, tweak: Block) -> Block;
}
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug)]
pub struct WireMod2 { val: Block }
impl HasModulus for WireMod2 { fn modulus(&self) -> u16 { 2 } }
impl WireLabel for WireMod2 {
    fn as_block(&self) -> Block { unimplemented!() }
    fn color(&self) -> u16 { unimplemented!() }
    fn from_block(_: Block, _: u16) -> Self { unimplemented!() }
    fn zero(_: u16) -> Self { unimplemented!() }
    fn plus(&self, _: &Self) -> Self { unimplemented!() }
    fn plus_mov(self, _: &Self) -> Self { unimplemented!() }
    fn plus_eq<'a>(&'a mut self, _: &Self) -> &'a mut Self { unimplemented!() }
    fn cmul(&self, _: u16) -> Self { unimplemented!() }
    fn negate(&self) -> Self { unimplemented!() }
    fn minus(&self, _: &Self) -> Self { unimplemented!() }
    fn rand<R: rand::CryptoRng + rand::Rng>(_: &mut R, _: u16) -> Self { unimplemented!() }
    fn rand_delta<R: rand::CryptoRng + rand::Rng>(_: &mut R, _: u16) -> Self { unimplemented!() }
    fn hash_to_mod(_: Block, _: u16) -> Self { unimplemented!() }
    fn hash(&self, _: Block) -> Block { unimplemented!() }
}
impl subtle::ConditionallySelectable for WireMod2 { fn conditional_select(_: &Self, _: &Self, _: subtle::Choice) -> Self { unimplemented!() } }
pub fn hash_wires<const Q: usize, W: WireLabel>(_wires: [&W; Q], _tweak: Block) -> [Block; Q] { unimplemented!() }
#[derive(Clone, Debug)]
pub struct BinaryBundle<W>(Vec<W>);
impl<W: Clone + HasModulus> BinaryBundle<W> {
    pub fn new(ws: Vec<W>) -> Self { BinaryBundle(ws) }
    pub fn wires(&self) -> &[W] { &self.0 }
    pub fn iter(&self) -> std::slice::Iter<'_, W> { self.0.iter() }
    pub fn extract(self) -> Bundle<W> { Bundle(self.0) }
    pub fn size(&self) -> usize { self.0.len() }
}
#[derive(Clone, Debug)]
pub struct Bundle<W>(Vec<W>);
impl<W: Clone + HasModulus> Bundle<W> {
    pub fn size(&self) -> usize { self.0.len() }
    pub fn wires(&self) -> &[W] { &self.0 }
}
