//! Hashing, authentication and encryption: objects with a state live in numbered slots.
use crate::{bytes, flag, hex, unhex, Out};
use crylib::aead::chacha::{chacha20, poly1305, ChaCha20Poly1305};
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm};
use crylib::aead::Aead;
use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};
use crylib::hkdf;
use crylib::hmac::Hmac;
use std::collections::HashMap;

type B256 = BufHasher<32, 64, Sha256>;
type B512 = BufHasher<64, 128, Sha512>;
enum Obj {
    H256(Sha256), H512(Sha512), B256(B256), B512(B512),
    M256(Hmac<32, 64, Sha256>), M512(Hmac<64, 128, Sha512>), N256(Hmac<32, 64, B256>), N512(Hmac<64, 128, B512>),
    Poly(poly1305::Poly1305),
    Aead(Box<dyn Aead>),
}
#[derive(Default)]
pub struct State(HashMap<String, Obj>);

fn aead(alg: &str, key: Vec<u8>) -> Box<dyn Aead> {
    match alg {
        "gcm128" => Box::new(Gcm::<Aes128>::new(key.try_into().unwrap())),
        "gcm192" => Box::new(Gcm::<Aes192>::new(key.try_into().unwrap())),
        "gcm256" => Box::new(Gcm::<Aes256>::new(key.try_into().unwrap())),
        _ => Box::new(ChaCha20Poly1305::new(key.try_into().unwrap())),
    }
}
fn aes<C: AesCipher<Key = [u8; K]>, const K: usize>(w: &[&str]) -> Out {
    let c = C::new(unhex(w[2]).try_into().unwrap());
    let block: [u8; 16] = unhex(w[3]).try_into().unwrap();
    let mut t = block;
    c.encrypt_inline(&mut t);
    vec![hex(&c.encrypt(&block)), hex(&t), C::KEY_SIZE.to_string(), C::NUM_ROUNDS.to_string()]
}

impl State {
    pub fn run(&mut self, w: &[&str]) -> Out {
        let slot = || w[1].to_string();
        match w[0] {
            "h.new" => {
                let o = match w[2] {
                    "256" => Obj::H256(Sha256::new()), "512" => Obj::H512(Sha512::new()),
                    "b256" => Obj::B256(B256::new()), _ => Obj::B512(B512::new()),
                };
                self.0.insert(slot(), o);
                vec!["ok".into()]
            }
            "h.fork" => {
                let o = match &self.0[w[1]] {
                    Obj::H256(h) => Obj::H256(h.clone()), Obj::H512(h) => Obj::H512(h.clone()),
                    Obj::B256(h) => Obj::B256(h.clone()), Obj::B512(h) => Obj::B512(h.clone()), _ => panic!(),
                };
                self.0.insert(w[2].to_string(), o);
                vec!["ok".into()]
            }
            "h.block" => {
                let d = bytes(w[2]);
                match self.0.get_mut(w[1]).unwrap() {
                    Obj::H256(h) => h.update(&d.try_into().unwrap()), Obj::H512(h) => h.update(&d.try_into().unwrap()),
                    Obj::B256(h) => h.update(&d.try_into().unwrap()), Obj::B512(h) => h.update(&d.try_into().unwrap()),
                    _ => panic!(),
                }
                vec!["ok".into()]
            }
            "h.feed" => {
                let d = bytes(w[2]);
                match self.0.get_mut(w[1]).unwrap() {
                    Obj::B256(h) => h.update_with(&d), Obj::B512(h) => h.update_with(&d), _ => panic!(),
                }
                vec!["ok".into()]
            }
            "h.get" => vec![match &self.0[w[1]] {
                Obj::B256(h) => hex(&h.get()), Obj::B512(h) => hex(&h.get()), _ => panic!(),
            }],
            "h.finish" => vec![match self.0.remove(w[1]).unwrap() {
                Obj::H256(h) => hex(&h.finish()), Obj::H512(h) => hex(&h.finish()),
                Obj::B256(h) => hex(&h.finish()), Obj::B512(h) => hex(&h.finish()), _ => panic!(),
            }],
            "h.finishw" => {
                let d = bytes(w[2]);
                vec![match self.0.remove(w[1]).unwrap() {
                    Obj::H256(h) => hex(&h.finish_with(&d)), Obj::H512(h) => hex(&h.finish_with(&d)),
                    Obj::B256(h) => hex(&h.finish_with(&d)), Obj::B512(h) => hex(&h.finish_with(&d)), _ => panic!(),
                }]
            }
            "h.hash" => {
                let d = bytes(w[2]);
                match w[1] {
                    "256" => vec![hex(&Sha256::hash(&d)), hex(&B256::hash(&d))],
                    _ => vec![hex(&Sha512::hash(&d)), hex(&B512::hash(&d))],
                }
            }
            "m.new" => {
                let k = bytes(w[3]);
                let o = match w[2] {
                    "256" => Obj::M256(Hmac::new(&k)), "512" => Obj::M512(Hmac::new(&k)),
                    "b256" => Obj::N256(Hmac::new(&k)), _ => Obj::N512(Hmac::new(&k)),
                };
                self.0.insert(slot(), o);
                vec!["ok".into()]
            }
            "m.block" => {
                let d = bytes(w[2]);
                match self.0.get_mut(w[1]).unwrap() {
                    Obj::M256(h) => h.update(&d.try_into().unwrap()), Obj::M512(h) => h.update(&d.try_into().unwrap()),
                    Obj::N256(h) => h.update(&d.try_into().unwrap()), Obj::N512(h) => h.update(&d.try_into().unwrap()),
                    _ => panic!(),
                }
                vec!["ok".into()]
            }
            "m.feed" => {
                let d = bytes(w[2]);
                match self.0.get_mut(w[1]).unwrap() {
                    Obj::N256(h) => h.update_with(&d), Obj::N512(h) => h.update_with(&d), _ => panic!(),
                }
                vec!["ok".into()]
            }
            "m.finish" => vec![match self.0.remove(w[1]).unwrap() {
                Obj::M256(h) => hex(&h.finish()), Obj::M512(h) => hex(&h.finish()),
                Obj::N256(h) => hex(&h.finish()), Obj::N512(h) => hex(&h.finish()), _ => panic!(),
            }],
            "m.finishw" => {
                let d = bytes(w[2]);
                vec![match self.0.remove(w[1]).unwrap() {
                    Obj::M256(h) => hex(&h.finish_with(&d)), Obj::M512(h) => hex(&h.finish_with(&d)),
                    Obj::N256(h) => hex(&h.finish_with(&d)), Obj::N512(h) => hex(&h.finish_with(&d)), _ => panic!(),
                }]
            }
            "m.auth" => {
                let (k, d) = (bytes(w[2]), bytes(w[3]));
                match w[1] {
                    "256" => vec![hex(&Hmac::<32, 64, Sha256>::auth(&k, &d)), hex(&Hmac::<32, 64, B256>::auth(&k, &d))],
                    _ => vec![hex(&Hmac::<64, 128, Sha512>::auth(&k, &d)), hex(&Hmac::<64, 128, B512>::auth(&k, &d))],
                }
            }
            "k.ext" => {
                let (salt, ikm) = (bytes(w[2]), bytes(w[3]));
                vec![match w[1] {
                    "256" => hex(&hkdf::extract::<32, 64, Sha256>(&ikm, &salt)),
                    _ => hex(&hkdf::extract::<64, 128, Sha512>(&ikm, &salt)),
                }]
            }
            "k.exp" => {
                let (prk, info) = (bytes(w[2]), bytes(w[3]));
                let n: usize = w[4].parse().unwrap();
                // the buffer's old contents must not matter
                let mut t = vec![0xa5; n];
                match w[1] {
                    "256" => hkdf::expand::<32, 64, Sha256>(&mut t, &prk.try_into().unwrap(), &info),
                    _ => hkdf::expand::<64, 128, Sha512>(&mut t, &prk.try_into().unwrap(), &info),
                }
                vec![hex(&t)]
            }
            "p.new" => {
                self.0.insert(slot(), Obj::Poly(poly1305::Poly1305::new(&unhex(w[2]).try_into().unwrap())));
                vec!["ok".into()]
            }
            "p.block" | "p.feed" => {
                let d = bytes(w[2]);
                match self.0.get_mut(w[1]).unwrap() {
                    Obj::Poly(p) if w[0] == "p.block" => p.update(&d.try_into().unwrap()),
                    Obj::Poly(p) => p.update_with(&d),
                    _ => panic!(),
                }
                vec!["ok".into()]
            }
            "p.finish" | "p.finishw" => match self.0.remove(w[1]).unwrap() {
                Obj::Poly(p) if w[0] == "p.finish" => vec![hex(&p.finish())],
                Obj::Poly(p) => vec![hex(&p.finish_with(&bytes(w[2])))],
                _ => panic!(),
            },
            "p.auth" => vec![hex(&poly1305::Poly1305::auth(&bytes(w[2]), &unhex(w[1]).try_into().unwrap()))],
            "p.key" => vec![hex(&poly1305::poly1305_key_gen(
                &unhex(w[1]).try_into().unwrap(), &unhex(w[2]).try_into().unwrap()))],
            "s.aes" => match w[1] {
                "128" => aes::<Aes128, 16>(w), "192" => aes::<Aes192, 24>(w), _ => aes::<Aes256, 32>(w),
            },
            "s.chacha" => {
                let (key, nonce): ([u8; 32], [u8; 12]) = (unhex(w[1]).try_into().unwrap(), unhex(w[2]).try_into().unwrap());
                let ctr = u32::from_str_radix(w[3], 16).unwrap();
                let msg = bytes(w[4]);
                let mut a = msg.clone();
                chacha20::encrypt_inline(&mut a, &key, &nonce, ctr);
                let mut b = vec![0xa5; msg.len() + 3];
                chacha20::encrypt(&msg, &key, &nonce, ctr, &mut b);
                vec![hex(&a), hex(&b)]
            }
            "a.new" => {
                self.0.insert(slot(), Obj::Aead(aead(w[2], unhex(w[3]))));
                vec!["ok".into()]
            }
            // slot nonce aad plaintext -> in place: ciphertext, tag; into a longer buffer: buffer, tag
            "a.seal" => {
                let Obj::Aead(a) = &self.0[w[1]] else { panic!() };
                let nonce: [u8; 12] = unhex(w[2]).try_into().unwrap();
                let (aad, msg) = (bytes(w[3]), bytes(w[4]));
                let mut x = msg.clone();
                let t = a.encrypt_inline(&mut x, &aad, &nonce);
                let mut y = vec![0xa5; msg.len() + 3];
                let t2 = a.encrypt(&mut y, &msg, &aad, &nonce);
                vec![hex(&x), hex(&t), hex(&y), hex(&t2)]
            }
            // slot nonce aad ciphertext tag -> in place: flag, buffer; into a longer buffer: flag, buffer
            "a.open" => {
                let Obj::Aead(a) = &self.0[w[1]] else { panic!() };
                let nonce: [u8; 12] = unhex(w[2]).try_into().unwrap();
                let (aad, ct) = (bytes(w[3]), bytes(w[4]));
                let tag: [u8; 16] = unhex(w[5]).try_into().unwrap();
                let mut x = ct.clone();
                let r = a.decrypt_inline(&mut x, &aad, &nonce, &tag);
                let mut y = vec![0xa5; ct.len() + 3];
                let r2 = a.decrypt(&mut y, &ct, &aad, &nonce, &tag);
                vec![flag(r.is_ok()), hex(&x), flag(r2.is_ok()), hex(&y)]
            }
            // zero blocks, tail: in one call, and in pieces
            "l.hash" => {
                let (n, tail): (usize, _) = (w[2].parse().unwrap(), bytes(w[3]));
                let mut d = vec![0; n * if w[1] == "256" { 64 } else { 128 }];
                d.extend(&tail);
                fn pieces<const L: usize, const B: usize, H: BlockHasher<L, B>>(d: &[u8]) -> String {
                    let mut h = BufHasher::<L, B, H>::new();
                    d.chunks(1_000_003).for_each(|c| h.update_with(c));
                    hex(&h.finish())
                }
                match w[1] {
                    "256" => vec![hex(&Sha256::hash(&d)), pieces::<32, 64, Sha256>(&d)],
                    _ => vec![hex(&Sha512::hash(&d)), pieces::<64, 128, Sha512>(&d)],
                }
            }
            // key nonce and a length in MiB and bytes: the tag over zeros
            "l.aad" => {
                let a = aead(w[1], unhex(w[2]));
                let z = vec![0; w[4].parse::<usize>().unwrap() * 1048576 + w[5].parse::<usize>().unwrap()];
                vec![hex(&a.encrypt_inline(&mut [], &z, &unhex(w[3]).try_into().unwrap()))]
            }
            // key nonce, bytes of associated data, MiB and bytes of ciphertext, tag, blocks to show: opening zeros
            "l.open" => {
                let a = aead(w[1], unhex(w[2]));
                let z = vec![0; w[4].parse().unwrap()];
                let mut d = vec![0; w[5].parse::<usize>().unwrap() * 1048576 + w[6].parse::<usize>().unwrap()];
                let r = a.decrypt_inline(&mut d, &z, &unhex(w[3]).try_into().unwrap(), &unhex(w[7]).try_into().unwrap());
                let show: Vec<u8> = w[8..].iter().flat_map(|i| d[16 * i.parse::<usize>().unwrap()..].iter().take(16).copied()).collect();
                vec![flag(r.is_ok()), hex(&show)]
            }
            _ => vec!["!unknown".into()],
        }
    }
}
