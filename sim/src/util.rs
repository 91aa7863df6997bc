use sha2::{Digest, Sha256};

pub fn sha256(b: &[u8]) -> Vec<u8> {
    let mut h = Sha256::new();
    h.update(b);
    h.finalize().to_vec()
}
/// Borsh form of the (fake) public key that belongs to a name: mostly ed25519, and two secp256k1 keys that
/// begin alike.
pub fn pk_of(name: &str) -> Vec<u8> {
    if let "k2" | "k5" = name {
        let mut v = vec![1u8];
        v.extend(sha256(b"k2"));
        v.extend(sha256(format!("{}+", name).as_bytes()));
        return v;
    }
    let mut v = vec![0u8];
    v.extend(sha256(name.as_bytes()));
    v
}
/// Text form, as contracts take it in JSON.
pub fn pk_str(name: &str) -> String {
    pk_text(&pk_of(name))
}
pub fn pk_text(pk: &[u8]) -> String {
    format!("{}:{}", if pk[0] == 1 { "secp256k1" } else { "ed25519" }, bs58::encode(&pk[1..]).into_string())
}
/// Reads a key the way contracts do.
pub fn pk_parse(text: &str) -> Option<Vec<u8>> {
    let (curve, data) = match text.find(':') {
        Some(i) => (text[..i].to_lowercase(), &text[i + 1..]),
        None => ("ed25519".into(), text),
    };
    let (kind, len) = match &curve[..] {
        "ed25519" => (0u8, 32),
        "secp256k1" => (1, 64),
        _ => return None,
    };
    let data = bs58::decode(data).into_vec().ok().filter(|d| d.len() == len)?;
    let mut v = vec![kind];
    v.extend(data);
    Some(v)
}
pub fn hash64(b: &[u8]) -> u64 {
    // FNV-1a with a final mix.
    let mut h: u64 = 0xcbf29ce484222325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h)
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5eed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// Uniform below n.
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn below128(&mut self, n: u128) -> u128 {
        if n == 0 {
            0
        } else {
            self.u128() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Index by weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut x = self.below(w.iter().sum());
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    /// An amount up to `max`, over many magnitudes, often at or near the bounds.
    pub fn amount(&mut self, max: u128) -> u128 {
        if max == 0 {
            return 0;
        }
        match self.below(10) {
            0 => max,
            1 => max - self.below(3).min(max as u64) as u128,
            2 => 1 + self.below(10) as u128,
            3 => {
                let bits = 128 - max.leading_zeros() as u64;
                let b = self.below(bits) + 1;
                (self.u128() >> (128 - b)).min(max)
            }
            4 => max / 2,
            5 => max / 3 + 1,
            _ => self.below128(max) + 1,
        }
    }
}

/// Full 256-bit product compare helpers: a*b cmp c*d and floor(a*b/c).
pub fn mul256(a: u128, b: u128) -> (u128, u128) {
    let m = (1u128 << 64) - 1;
    let (a1, a0, b1, b0) = (a >> 64, a & m, b >> 64, b & m);
    let p00 = a0 * b0;
    let p01 = a0 * b1;
    let p10 = a1 * b0;
    let p11 = a1 * b1;
    let mid = (p00 >> 64) + (p01 & m) + (p10 & m);
    let lo = (p00 & m) | (mid << 64);
    let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
    (hi, lo)
}
pub fn mul_cmp(a: u128, b: u128, c: u128, d: u128) -> std::cmp::Ordering {
    mul256(a, b).cmp(&mul256(c, d))
}
/// floor(a*b/c); None on c == 0 or overflow.
pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    let (hi, lo) = mul256(a, b);
    if hi >= c {
        return None;
    }
    let mut rem = hi;
    let mut q: u128 = 0;
    for i in (0..128).rev() {
        let top = rem >> 127;
        rem = (rem << 1) | ((lo >> i) & 1);
        if top == 1 || rem >= c {
            rem = rem.wrapping_sub(c);
            q |= 1 << i;
        }
    }
    Some(q)
}
pub fn mul_div_up(a: u128, b: u128, c: u128) -> Option<u128> {
    let q = mul_div(a, b, c)?;
    if mul256(q, c) == mul256(a, b) {
        Some(q)
    } else {
        q.checked_add(1)
    }
}
pub fn near(x: u128) -> String {
    format!("{:.4}N", x as f64 / 1e24)
}

/// For `tools/reach.py`: the first time each line starting with `COV:` is logged, it is appended to the file
/// that the variable SIM_COV names.
pub fn reached(logs: &[String]) {
    use std::{collections::HashSet, io::Write, sync::Mutex};
    static mut SEEN: Option<(String, Mutex<HashSet<String>>)> = None;
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe { SEEN = std::env::var("SIM_COV").ok().map(|f| (f, Mutex::new(HashSet::new()))) });
    if let Some((file, seen)) = unsafe { &*std::ptr::addr_of!(SEEN) } {
        for l in logs.iter().filter(|l| l.starts_with("COV:")) {
            if seen.lock().unwrap().insert(l.clone()) {
                let f = std::fs::OpenOptions::new().create(true).append(true).open(file);
                let _ = f.and_then(|mut f| f.write_all(format!("{}\n", l).as_bytes()));
            }
        }
    }
}
