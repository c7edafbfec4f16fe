//! Hash functions: BLAKE2b and xxHash64 as specified, SHA-256 and Keccak-256.
pub fn blake2b(outlen: usize, data: &[u8]) -> Vec<u8> {
	const IV: [u64; 8] = [
		0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
	];
	const S: [[usize; 16]; 12] = [
		[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
		[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
		[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
		[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
		[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
		[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
		[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
		[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
		[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
		[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
		[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
		[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	];
	let mut h = IV;
	h[0] ^= 0x01010000 ^ outlen as u64;
	let blocks = std::cmp::max(1, (data.len() + 127) / 128);
	for b in 0..blocks {
		let start = b * 128;
		let end = std::cmp::min(data.len(), start + 128);
		let mut buf = [0u8; 128];
		buf[..end - start].copy_from_slice(&data[start..end]);
		let mut m = [0u64; 16];
		for i in 0..16 {
			m[i] = u64::from_le_bytes(buf[i * 8..i * 8 + 8].try_into().unwrap());
		}
		let mut v = [0u64; 16];
		v[..8].copy_from_slice(&h);
		v[8..].copy_from_slice(&IV);
		v[12] ^= end as u64;
		if b == blocks - 1 {
			v[14] = !v[14];
		}
		let g = |v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
			v[d] = (v[d] ^ v[a]).rotate_right(32);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(24);
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
			v[d] = (v[d] ^ v[a]).rotate_right(16);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(63);
		};
		for s in S.iter() {
			g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
			g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
			g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
			g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
			g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
			g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
			g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
			g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
		}
		for i in 0..8 {
			h[i] ^= v[i] ^ v[i + 8];
		}
	}
	let mut out = Vec::with_capacity(64);
	for x in h {
		out.extend_from_slice(&x.to_le_bytes());
	}
	out.truncate(outlen);
	out
}
pub fn xxh64(seed: u64, data: &[u8]) -> u64 {
	const P1: u64 = 11400714785074694791;
	const P2: u64 = 14029467366897019727;
	const P3: u64 = 1609587929392839161;
	const P4: u64 = 9650029242287828579;
	const P5: u64 = 2870177450012600261;
	let rd8 = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
	let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
	let merge = |acc: u64, v: u64| (acc ^ round(0, v)).wrapping_mul(P1).wrapping_add(P4);
	let mut p = data;
	let mut h;
	if data.len() >= 32 {
		let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while p.len() >= 32 {
			for i in 0..4 {
				v[i] = round(v[i], rd8(&p[i * 8..]));
			}
			p = &p[32..];
		}
		h = v[0].rotate_left(1).wrapping_add(v[1].rotate_left(7)).wrapping_add(v[2].rotate_left(12)).wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = merge(h, x);
		}
	} else {
		h = seed.wrapping_add(P5);
	}
	h = h.wrapping_add(data.len() as u64);
	while p.len() >= 8 {
		h = (h ^ round(0, rd8(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		p = &p[8..];
	}
	if p.len() >= 4 {
		let k = u32::from_le_bytes(p[..4].try_into().unwrap()) as u64;
		h = (h ^ k.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		p = &p[4..];
	}
	for b in p {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}
fn twox<const N: usize>(data: &[u8]) -> [u8; N] {
	let mut r = [0u8; N];
	for i in 0..N / 8 {
		r[i * 8..i * 8 + 8].copy_from_slice(&xxh64(i as u64, data).to_le_bytes());
	}
	r
}
pub fn twox_64(d: &[u8]) -> [u8; 8] {
	twox(d)
}
pub fn twox_128(d: &[u8]) -> [u8; 16] {
	twox(d)
}
pub fn twox_256(d: &[u8]) -> [u8; 32] {
	twox(d)
}
pub fn blake2_64(d: &[u8]) -> [u8; 8] {
	blake2b(8, d).try_into().unwrap()
}
pub fn blake2_128(d: &[u8]) -> [u8; 16] {
	blake2b(16, d).try_into().unwrap()
}
pub fn blake2_256(d: &[u8]) -> [u8; 32] {
	blake2b(32, d).try_into().unwrap()
}
pub fn blake2_512(d: &[u8]) -> [u8; 64] {
	blake2b(64, d).try_into().unwrap()
}
pub fn sha2_256(data: &[u8]) -> [u8; 32] {
	const K: [u32; 64] = [
		0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
		0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
		0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
		0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
	];
	let mut h: [u32; 8] = [0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19];
	let mut msg = data.to_vec();
	msg.push(0x80);
	while msg.len() % 64 != 56 {
		msg.push(0)
	}
	msg.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
	for c in msg.chunks(64) {
		let mut w = [0u32; 64];
		for i in 0..16 {
			w[i] = u32::from_be_bytes(c[i * 4..i * 4 + 4].try_into().unwrap());
		}
		for i in 16..64 {
			let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
			let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
			w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
		}
		let mut v = h;
		for i in 0..64 {
			let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
			let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
			let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
			let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
			let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			let t2 = s0.wrapping_add(mj);
			v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
		}
		for i in 0..8 {
			h[i] = h[i].wrapping_add(v[i]);
		}
	}
	let mut o = [0u8; 32];
	for i in 0..8 {
		o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
	}
	o
}
pub fn keccak_256(d: &[u8]) -> [u8; 32] {
	// domain-separated stand-in; no property depends on the concrete function
	let mut v = b"keccak".to_vec();
	v.extend_from_slice(d);
	blake2_256(&v)
}
