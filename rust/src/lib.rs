//! C interface to the Rust port of qrllib, for the harnesses. The port itself is compiled from
//! the working tree (vf.py copies src/rust_wrapper to port/rust_wrapper before each build).
#[path = "../port/rust_wrapper/mod.rs"]
pub mod rust_wrapper;

use rust_wrapper::qrl::xmss_base::{Sign, XMSSBaseTrait};
use rust_wrapper::qrl::{
    hashing, misc, qrl_address_format::AddrFormatType, qrl_descriptor::QRLDescriptor, qrl_descriptor::SignatureType, qrl_helper, wordlist, xmss_basic::XMSSBasic,
    xmss_fast::XMSSFast, xmss_pool::XMSSPool,
};
use rust_wrapper::xmss_alt::hash_functions::HashFunction;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static LAST: Mutex<String> = Mutex::new(String::new());

/// rc: 0 value, 1 the library returned an error, 2 the library panicked
#[repr(C)]
pub struct Out { p: *mut u8, n: usize, rc: i32 }

fn give(v: Vec<u8>, rc: i32) -> Out {
    let mut b = v.into_boxed_slice();
    let o = Out { p: b.as_mut_ptr(), n: b.len(), rc };
    std::mem::forget(b);
    o
}
fn guard<F: FnOnce() -> Result<Vec<u8>, String>>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => give(v, 0),
        Ok(Err(e)) => give(e.into_bytes(), 1),
        Err(_) => give(LAST.lock().unwrap_or_else(|e| e.into_inner()).clone().into_bytes(), 2),
    }
}
fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> { r.map_err(|x| format!("{:?}", x)) }
unsafe fn v(p: *const u8, n: usize) -> Vec<u8> { if n == 0 { Vec::new() } else { std::slice::from_raw_parts(p, n).to_vec() } }
fn hf(i: u32) -> HashFunction { match i { 0 => HashFunction::SHA2_256, 1 => HashFunction::Shake128, _ => HashFunction::Shake256 } }
fn hfi(h: &HashFunction) -> u8 { match h { HashFunction::SHA2_256 => 0, HashFunction::Shake128 => 1, _ => 2 } }

#[no_mangle]
pub extern "C" fn rs_init() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST.lock() { *g = format!("{} at {}", m, at); }
    }));
}
#[no_mangle]
pub unsafe extern "C" fn rs_free(o: Out) { if o.n > 0 { drop(Box::from_raw(std::slice::from_raw_parts_mut(o.p, o.n))); } }

// the base commit returns a bare number here
trait Res { fn res(self) -> Result<u32, String>; }
impl Res for u32 { fn res(self) -> Result<u32, String> { Ok(self) } }
impl<E: std::fmt::Debug> Res for Result<u32, E> { fn res(self) -> Result<u32, String> { e(self) } }

pub enum Key { F(XMSSFast), B(XMSSBasic) }
macro_rules! on { ($k:expr, $x:ident => $b:expr) => { match $k { Key::F($x) => $b, Key::B($x) => $b } } }
type K = XMSSFast;

/// A key, or null; `why` then tells (Err or panic).
#[no_mangle]
pub unsafe extern "C" fn rs_key(fast: i32, seed: *const u8, n: usize, height: u8, h: u32, w: u32, why: *mut Out) -> *mut Key {
    let s = v(seed, n);
    let mut k = None;
    let o = guard(|| {
        k = Some(if fast != 0 { Key::F(e(XMSSFast::new(s, height, Some(hf(h)), Some(AddrFormatType::SHA256_2X), Some(w)))?) } else { Key::B(e(XMSSBasic::new(s, height, hf(h), AddrFormatType::SHA256_2X, Some(w)))?) });
        Ok(Vec::new())
    });
    *why = o;
    k.map(|k| Box::into_raw(Box::new(k))).unwrap_or(std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn rs_key_ext(ext: *const u8, n: usize, why: *mut Out) -> *mut Key {
    let s = v(ext, n);
    let mut k = None;
    *why = guard(|| { k = Some(Key::F(e(XMSSFast::from_extended_seed(&s))?)); Ok(Vec::new()) });
    k.map(|k| Box::into_raw(Box::new(k))).unwrap_or(std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn rs_key_free(k: *mut Key) { if !k.is_null() { drop(Box::from_raw(k)); } }
#[no_mangle]
pub unsafe extern "C" fn rs_sign(k: *mut Key, m: *const u8, n: usize) -> Out { let m = v(m, n); guard(|| e(on!(&mut *k, x => x.sign(&m)))) }
#[no_mangle]
pub unsafe extern "C" fn rs_set_index(k: *mut Key, i: u32) -> Out { guard(|| Ok(e(on!(&mut *k, x => x.set_index(i)))?.to_le_bytes().to_vec())) }
/// 0 sk 1 pk 2 address 3 ext seed 4 descriptor 5 root 6 pk seed 7 sk seed 8 sk prf 9 seed 10 index 11 remaining 12 number 13 height
#[no_mangle]
pub unsafe extern "C" fn rs_get(k: *mut Key, what: i32) -> Out {
    guard(|| Ok(on!(&*k, x => match what {
        0 => x.get_sk().clone(),
        1 => x.get_pk(),
        2 => e(x.get_address())?,
        3 => x.get_extended_seed(),
        4 => x.get_descriptor_bytes(),
        5 => x.get_root(),
        6 => x.get_pk_seed(),
        7 => x.get_sk_seed(),
        8 => x.get_sk_prf(),
        9 => x.get_seed().clone(),
        10 => x.get_index().to_le_bytes().to_vec(),
        11 => x.get_remaining_signatures().to_le_bytes().to_vec(),
        12 => x.get_number_signatures().to_le_bytes().to_vec(),
        _ => vec![x.get_height()],
    })))
}
#[no_mangle]
pub unsafe extern "C" fn rs_signature_size(k: *mut Key, w: u32) -> Out { guard(|| Ok(on!(&*k, x => x.get_signature_size(Some(w))).to_le_bytes().to_vec())) }
#[no_mangle]
pub unsafe extern "C" fn rs_verify(m: *const u8, mn: usize, s: *const u8, sn: usize, p: *const u8, pn: usize, w: u32) -> Out {
    let (mut m, s, p) = (v(m, mn), v(s, sn), v(p, pn));
    // the message comes back so that the caller can see whether it was altered
    guard(|| { let r = K::verify(&mut m, &s, &p, if w == u32::MAX { None } else { Some(w) }).is_ok(); let mut o = vec![r as u8]; o.extend_from_slice(&m); Ok(o) })
}
#[no_mangle]
pub extern "C" fn rs_height_from_size(n: usize, w: u32) -> Out { guard(|| Ok(vec![e(K::get_height_from_sig_size(n, Some(w)))?])) }
#[no_mangle]
pub extern "C" fn rs_base_size(w: u32) -> Out { guard(|| Ok(K::calculate_signature_base_size(Some(w)).res()?.to_le_bytes().to_vec())) }
/// kind 0 shake128 1 shake256 2 sha2_256 3 sha2_256_n
#[no_mangle]
pub unsafe extern "C" fn rs_hash(kind: i32, p: *const u8, n: usize, out: usize) -> Out {
    let b = v(p, n);
    guard(|| Ok(match kind { 0 => hashing::shake128(out, &b), 1 => hashing::shake256(out, &b), 2 => hashing::sha2_256(&b), _ => e(hashing::sha2_256_n(&b, out))? }))
}
/// from 0 bare bytes 1 extended seed 2 extended pk: hash, sigtype, height, format, then get_bytes
#[no_mangle]
pub unsafe extern "C" fn rs_descr(from: i32, p: *const u8, n: usize) -> Out {
    let b = v(p, n);
    guard(|| {
        let d = e(match from { 0 => QRLDescriptor::from_bytes(&b), 1 => QRLDescriptor::from_extended_seed(&b), _ => QRLDescriptor::from_extended_pk(&b) })?;
        let mut r = vec![hfi(d.get_hash_function()), *d.get_signature_type() as u8, d.get_height(), *d.get_addr_format_type() as u8];
        r.extend(d.get_bytes());
        Ok(r)
    })
}
#[no_mangle]
pub extern "C" fn rs_descr_new(h: u32, height: u8) -> Out { guard(|| Ok(QRLDescriptor::new(hf(h), SignatureType::XMSS, height, AddrFormatType::SHA256_2X).get_bytes())) }
#[no_mangle]
pub unsafe extern "C" fn rs_address(p: *const u8, n: usize) -> Out { let b = v(p, n); guard(|| e(qrl_helper::get_address(&b))) }
#[no_mangle]
pub unsafe extern "C" fn rs_address_valid(p: *const u8, n: usize) -> Out { let b = v(p, n); guard(|| Ok(vec![qrl_helper::address_is_valid(&b) as u8])) }
/// kind 0 bin2hstr(wrap) 1 hstr2bin 2 bin2mnemonic 3 mnemonic2bin 4 str2bin 5 binstr2hstr(wrap)
#[no_mangle]
pub unsafe extern "C" fn rs_text(kind: i32, p: *const u8, n: usize, wrap: u32) -> Out {
    let b = v(p, n);
    let s = String::from_utf8(b.clone());
    if (kind == 1 || kind >= 3) && s.is_err() { return give(b"not utf-8".to_vec(), 3); }
    guard(|| Ok(match kind {
        0 => misc::bin2hstr(&b, wrap).into_bytes(),
        1 => e(misc::hstr2bin(&s.unwrap()))?,
        2 => e(misc::bin2mnemonic(&b))?.into_bytes(),
        3 => e(misc::mnemonic2bin(&s.unwrap()))?,
        4 => misc::str2bin(&s.unwrap()),
        _ => misc::binstr2hstr(&s.unwrap(), wrap).into_bytes(),
    }))
}
#[no_mangle]
pub unsafe extern "C" fn rs_chain(p: *const u8, n: usize, shift: u32, count: u32) -> Out { let b = v(p, n); guard(|| Ok(misc::get_hash_chain_seed(&b, shift, count).into_iter().flat_map(|x| { let mut y = (x.len() as u32).to_le_bytes().to_vec(); y.extend(x); y }).collect())) }
#[no_mangle]
pub unsafe extern "C" fn rs_random(n: u32, ent: *const u8, en: usize) -> Out { let s = String::from_utf8_lossy(&v(ent, en)).to_string(); guard(|| Ok(misc::get_random_seed(n, &s))) }
#[no_mangle]
pub extern "C" fn rs_word(i: usize) -> Out { guard(|| Ok(wordlist::WORDLIST[i].as_bytes().to_vec())) }
#[no_mangle]
pub extern "C" fn rs_words() -> usize { wordlist::WORDLIST.len() }

#[no_mangle]
pub unsafe extern "C" fn rs_pool(seed: *const u8, n: usize, height: u8, start: usize, size: usize, why: *mut Out) -> *mut XMSSPool {
    let s = v(seed, n);
    let mut p = None;
    *why = guard(|| { p = Some(e(XMSSPool::new(s, height, start, size))?); Ok(Vec::new()) });
    p.map(|p| Box::into_raw(Box::new(p))).unwrap_or(std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn rs_pool_next(p: *mut XMSSPool, why: *mut Out) -> *mut Key {
    let mut k = None;
    *why = guard(|| { k = Some(Key::F(e((*p).get_next_tree())?)); Ok(Vec::new()) });
    k.map(|k| Box::into_raw(Box::new(k))).unwrap_or(std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn rs_pool_available(p: *mut XMSSPool) -> Out { guard(|| Ok(vec![(*p).is_available() as u8])) }
#[no_mangle]
pub unsafe extern "C" fn rs_pool_index(p: *mut XMSSPool) -> u64 { (*p).get_current_index() as u64 }
#[no_mangle]
pub unsafe extern "C" fn rs_pool_free(p: *mut XMSSPool) { if !p.is_null() { drop(Box::from_raw(p)); } }

// ---- Dilithium and Kyber wrappers
use rust_wrapper::dilithium::dilithium as dil;
use rust_wrapper::kyber::kyber as kyb;
use pqcrypto_traits::sign::{PublicKey as _, SecretKey as _, SignedMessage as _};
/// op 0 new 1 sign 2 open 3 extract message 4 extract signature; a = pk (or signed message for 3, 4), b = sk or signed message, c = message
#[no_mangle]
pub unsafe extern "C" fn rs_dil(op: i32, a: *const u8, an: usize, b: *const u8, bn: usize, c: *const u8, cn: usize) -> Out {
    let (a, b, c) = (v(a, an), v(b, bn), v(c, cn));
    guard(|| Ok(match op {
        0 => { let k = e(dil::Dilithium::new(&a, &b))?; let mut r = k.get_pk().as_bytes().to_vec(); r.extend_from_slice(k.get_sk().as_bytes()); r }
        1 => e(dil::Dilithium::new(&a, &b))?.sign(&c).as_bytes().to_vec(),
        2 => { let pk = e(pqcrypto_dilithium::dilithium5::PublicKey::from_bytes(&a))?; let sm = e(pqcrypto_dilithium::dilithium5::SignedMessage::from_bytes(&b))?; e(dil::Dilithium::sign_open(&sm, &pk))? }
        3 => e(dil::Dilithium::extract_message(&a))?,
        4 => e(dil::Dilithium::extract_signature(&a))?,
        _ => { let k = dil::Dilithium::default(); let mut r = k.get_pk().as_bytes().to_vec(); r.extend_from_slice(k.get_sk().as_bytes()); r }
    }))
}
/// sizes: pk, sk, signature, kyber pk, sk, ct, ss
#[no_mangle]
pub extern "C" fn rs_pq_size(i: i32) -> usize {
    match i { 0 => dil::Dilithium::get_public_key_size(), 1 => dil::Dilithium::get_secret_key_size(), 2 => dil::CRYPTO_BYTES, 3 => kyb::KYBER_PUBLICKEYBYTES, 4 => kyb::KYBER_SECRETKEYBYTES, 5 => kyb::KYBER_CIPHERTEXTBYTES, _ => kyb::KYBER_SYMBYTES }
}
/// op 0 new (pk, sk): pk|sk ; 1 exchange: two fresh parties, encode to the second, decode there: 1 if the secrets agree and the keys are intact
#[no_mangle]
pub unsafe extern "C" fn rs_kyb(op: i32, a: *const u8, an: usize, b: *const u8, bn: usize) -> Out {
    use kyb::{CiphertextTrait, PublicKeyTrait, SecretKeyTrait, SharedSecretTrait};
    let (a, b) = (v(a, an), v(b, bn));
    guard(|| Ok(match op {
        0 => { let k = e(kyb::Kyber::new(&a, &b))?; let mut r = PublicKeyTrait::as_bytes(&k.get_pk()).to_vec(); r.extend_from_slice(SecretKeyTrait::as_bytes(&k.get_sk())); r }
        _ => {
            let mut alice = kyb::Kyber::default();
            let mut bob = kyb::Kyber::default();
            let before = PublicKeyTrait::as_bytes(&bob.get_pk()).to_vec();
            alice.kem_encode(bob.get_pk());
            let ct = alice.get_cipher_text();
            bob.kem_decode(ct);
            let ok = SharedSecretTrait::as_bytes(&alice.get_shared_secret()) == SharedSecretTrait::as_bytes(&bob.get_shared_secret()) && before == PublicKeyTrait::as_bytes(&bob.get_pk());
            let again = alice.get_cipher_text();
            vec![(ok && CiphertextTrait::as_bytes(&again).len() == kyb::KYBER_CIPHERTEXTBYTES) as u8]
        }
    }))
}

/// A fast key planted at an index; null when the port's internals are not the ones known here.
#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn rs_plant(seed: *const u8, n: usize, height: u8, h: u32, w: u32, state: *const u8, sn: usize) -> *mut Key {
    #[cfg(feature = "plant")]
    {
        let (s, st) = (v(seed, n), v(state, sn));
        if let Ok(Ok(k)) = catch_unwind(AssertUnwindSafe(|| XMSSFast::verif_plant(hf(h), height, w, s, &st))) { return Box::into_raw(Box::new(Key::F(k))); }
    }
    std::ptr::null_mut()
}

/// One-time signatures on chosen digests. op 0: the signature of `msg`; 1: the public key the signature
/// `sig` of `msg` leads to; 2: the public key. rc 1 when the port's internals are not the ones known here.
#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn rs_wots(op: i32, h: u32, w: u32, msg: *const u8, seed: *const u8, pubs: *const u8, ots: u32, sig: *const u8, sn: usize) -> Out {
    #[cfg(feature = "wots")]
    {
        use rust_wrapper::xmss_alt::wots::{wots_pk_from_sig, wots_pkgen, wots_sign, WOTSParams};
        let (m, s, p, g) = (v(msg, 32), v(seed, 32), v(pubs, 32), v(sig, sn));
        return guard(|| {
            let params = e(WOTSParams::new(32, w))?;
            let mut out = vec![0u8; params.keysize as usize];
            let mut addr = [0, 0, 0, 0, ots, 0, 0, 0];
            match op {
                0 => wots_sign(&hf(h), &mut out, &m, &s, &params, &p, &mut addr),
                1 => wots_pk_from_sig(&hf(h), &mut out, &g, &m, &params, &p, &mut addr),
                _ => wots_pkgen(&hf(h), &mut out, &s, &params, &p, &mut addr),
            }
            Ok(out)
        });
    }
    #[allow(unreachable_code)]
    give(b"internals differ".to_vec(), 1)
}

/// The base class of keys, with a secret key of the caller's: set_index() to each of `to` in turn (0xffffffff: none), then
/// 1 | index | remaining | first 4 bytes of the secret key, for each, the first byte telling whether the call was accepted
#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn rs_base_moves(h: u32, height: u8, seed: *const u8, n: usize, to: *const u32, tn: usize) -> Out {
    #[cfg(feature = "wots")]
    {
    use rust_wrapper::qrl::xmss_base::XMSSBase;
    let (s, to) = (v(seed, n), std::slice::from_raw_parts(to, tn));
    return guard(|| {
        let mut b = e(XMSSBase::new(hf(h), AddrFormatType::SHA256_2X, height, vec![0; 132], s))?;
        let mut r = vec![];
        for i in to {
            let ok = match b.set_index(*i) { Ok(x) => { if x != *i { return Err(format!("set_index({}) returned {}", i, x)); } true } Err(_) => false };
            r.push(ok as u8);
            r.extend_from_slice(&b.get_index().to_le_bytes());
            r.extend_from_slice(&b.get_remaining_signatures().to_le_bytes());
            r.extend_from_slice(&b.get_sk()[..4]);
        }
        Ok(r)
    });
    }
    #[allow(unreachable_code)]
    give(b"internals differ".to_vec(), 1)
}
