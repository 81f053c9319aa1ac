//! Type surface of swanky's scuttlebutt that co-snarks uses. The bodies are never analysed nor run: the analysis models calls to them by name.
use std::ops::BitXor;
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug, Hash)]
pub struct Block(pub [u8; 16]);
impl AsRef<[u8]> for Block { fn as_ref(&self) -> &[u8] { &self.0 } }
impl AsMut<[u8]> for Block { fn as_mut(&mut self) -> &mut [u8] { &mut self.0 } }
impl BitXor for Block { type Output = Block; fn bitxor(self, _: Block) -> Block { unimplemented!() } }
impl subtle::ConditionallySelectable for Block { fn conditional_select(_: &Self, _: &Self, _: subtle::Choice) -> Self { unimplemented!() } }
impl From<[u8; 16]> for Block { fn from(x: [u8; 16]) -> Self { Block(x) } }
impl rand::distributions::Distribution<Block> for rand::distributions::Standard { fn sample<R: rand::Rng + ?Sized>(&self, _: &mut R) -> Block { unimplemented!() } }
