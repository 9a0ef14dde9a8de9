//! A challenger that records what is observed and sampled, and can alter what it observes.
//!
//! Altering byte `k` of the observed stream and the same byte of the finished proof gives the
//! proof a dishonest party would produce by sending a wrong message and continuing honestly:
//! all later challenges are those the verifier will draw.
use std::sync::Mutex;

use binius_core::fiat_shamir::{Challenger, HasherChallenger};
use binius_hash::groestl::Groestl256;
use bytes::{Buf, BufMut, buf::UninitSlice};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
	Observe(Vec<u8>),
	Sample(Vec<u8>),
}

#[derive(Default)]
pub struct State {
	pub events: Vec<Ev>,
	/// Bytes observed so far.
	pub pos: usize,
	/// (position, mask) to alter.
	pub alter: Vec<(usize, u8)>,
	pub altered: usize,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

pub fn start(alter: Vec<(usize, u8)>) {
	*STATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(State { alter, ..Default::default() });
}

pub fn stop() -> State {
	STATE.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default()
}

#[derive(Default)]
pub struct Tap {
	inner: HasherChallenger<Groestl256>,
	buf: [u8; 32],
}

impl Tap {
	fn see(&mut self, n: usize) {
		let mut b = self.buf[..n].to_vec();
		if let Some(s) = STATE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
			match s.events.last_mut() {
				Some(Ev::Observe(v)) => v.extend_from_slice(&b),
				_ => s.events.push(Ev::Observe(b.clone())),
			}
			for &(p, m) in &s.alter {
				if p >= s.pos && p < s.pos + n {
					b[p - s.pos] ^= m;
					s.altered += 1;
				}
			}
			s.pos += n;
		}
		self.inner.observer().put_slice(&b);
	}
}

unsafe impl BufMut for Tap {
	fn remaining_mut(&self) -> usize {
		usize::MAX
	}
	unsafe fn advance_mut(&mut self, cnt: usize) {
		assert!(cnt <= self.buf.len());
		if cnt > 0 {
			self.see(cnt);
		}
	}
	fn chunk_mut(&mut self) -> &mut UninitSlice {
		(&mut self.buf[..]).into()
	}
}

pub struct TapSampler {
	tap: Tap,
	out: Vec<u8>,
}

impl Default for TapSampler {
	fn default() -> Self {
		TapSampler { tap: Tap::default(), out: Vec::new() }
	}
}

impl Buf for TapSampler {
	fn remaining(&self) -> usize {
		usize::MAX
	}
	fn chunk(&self) -> &[u8] {
		&self.out
	}
	fn advance(&mut self, cnt: usize) {
		assert!(cnt <= self.out.len());
		if let Some(s) = STATE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
			match s.events.last_mut() {
				_ if cnt == 0 => {}
				Some(Ev::Sample(v)) => v.extend_from_slice(&self.out[..cnt]),
				_ => s.events.push(Ev::Sample(self.out[..cnt].to_vec())),
			}
		}
		let s = self.tap.inner.sampler();
		s.advance(cnt);
		self.out = s.chunk().to_vec();
	}
}

impl Challenger for TapSampler {
	fn sampler(&mut self) -> &mut impl Buf {
		self.out = self.tap.inner.sampler().chunk().to_vec();
		self
	}
	fn observer(&mut self) -> &mut impl BufMut {
		&mut self.tap
	}
}

pub type TapChallenger = TapSampler;
