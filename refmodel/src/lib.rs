//! Reference model of BIP39, BIP32, Base58Check, secp256k1 and RFC 6979, written from the
//! specifications and sharing no code with the library under check.
pub mod b58;
pub mod bip32;
pub mod bip39;
pub mod ec;
pub mod hash;

/// The model against published vectors; run before every check.
pub fn self_test() -> Result<(), String> {
    use hash::*;
    macro_rules! t { ($a:expr, $b:expr) => { if $a != $b { return Err(format!("reference model: {} gives {:?}", stringify!($a), $a)); } } }
    t!(hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    t!(hex(&sha256(&[b'a'; 56])), "b35439a4ac6f0948b6d6f9e3c6af0f5f590ce20f1bde7090ef7970686ec6738a");
    t!(hex(&sha512(b"abc")), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
    t!(hex(&ripemd160(b"")), "9c1185a5c5e9fc54612808977ee8f548b2258d31");
    t!(hex(&ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
    t!(hex(&ripemd160(b"abcdefghijklmnopqrstuvwxyz")), "f71c27109c692c1b56bbdceb5b9d2865b3708dbc");
    t!(hex(&ripemd160(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")), "b0e20b6e3116640286ed3a87a5713079b21f5189");
    t!(hex(&bip39::list_digest(bip39::Lang::En)), "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda");
    t!(hex(&bip39::list_digest(bip39::Lang::Zh)), "5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726");
    // BIP39 (Trezor) vectors
    let e = unhex("f585c11aec520db57dd353c69554b21a89b20fb0650966fa0a9d6f74fd989d8f");
    let ph = "void come effort suffer camp survey warrior heavy shoot primary clutch crush open amazing screen patrol group space point ten exist slush involve unfold";
    t!(bip39::encode(bip39::Lang::En, &e).unwrap(), ph);
    t!(bip39::import(bip39::Lang::En, ph).unwrap().1, e);
    let sd = bip39::seed(bip39::Lang::En, ph, "TREZOR");
    t!(hex(&sd), "01f5bced59dec48e362f2c45b5de68b9fd6c92c6634f44d6d40aab69056506f0e35524a518034ddc1192e1dacd32c1ed3eaa3c3b131c88ed8e7e54c49a5d0998");
    t!(bip32::master(&sd).unwrap().text(0x0488ade4), "xprv9s21ZrQH143K39rnQJknpH1WEPFJrzmAqqasiDcVrNuk926oizzJDDQkdiTvNPr2FYDYzWgiMiC63YmfPAa2oPyNB23r2g7d1yiK6WpqaQS");
    let ab = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
    t!(hex(&bip39::seed(bip39::Lang::En, ab, "nullius　à　nym.zone ¹teſts² English")), "61f3aa13adcf5f4b8661fc062501d67eca3a53fc0ed129076ad7a22983b6b5ed0e84e47b24cff23b7fca57e127f62f28c1584ed487872d4bfbc773257bdbc434");
    // BIP32 vectors 1, 2, 3
    let m = bip32::master(&unhex("000102030405060708090a0b0c0d0e0f")).unwrap();
    let h = bip32::HARD;
    let k = m.path(&[h, 1, 2 + h, 2, 1000000000]).unwrap();
    t!(k.text(0x0488ade4), "xprvA41z7zogVVwxVSgdKUHDy1SKmdb533PjDz7J6N6mV6uS3ze1ai8FHa8kmHScGpWmj4WggLyQjgPie1rFSruoUihUZREPSL39UNdE3BBDu76");
    t!(k.neuter().text(0x0488b21e), "xpub6H1LXWLaKsWFhvm6RVpEL9P4KfRZSW7abD2ttkWP3SSQvnyA8FSVqNTEcYFgJS2UaFcxupHiYkro49S8yGasTvXEYBVPamhGW6cFJodrTHy");
    t!(m.path(&[h, 1, 2 + h, 2]).unwrap().neuter().child(1000000000).unwrap(), k.neuter());
    let m = bip32::master(&unhex("fffcf9f6f3f0edeae7e4e1dedbd8d5d2cfccc9c6c3c0bdbab7b4b1aeaba8a5a29f9c999693908d8a8784817e7b7875726f6c696663605d5a5754514e4b484542")).unwrap();
    t!(m.path(&[0, h + 2147483647, 1, h + 2147483646, 2]).unwrap().text(0x0488ade4), "xprvA2nrNbFZABcdryreWet9Ea4LvTJcGsqrMzxHx98MMrotbir7yrKCEXw7nadnHM8Dq38EGfSh6dqA9QWTyefMLEcBYJUuekgW4BYPJcr9E7j");
    let m = bip32::master(&unhex("4b381541583be4423346c643850da4b320e46a87ae3d2a4e6da11eba819cd4acba45d239319ac14f863b8d5ab5a0d0c64d2e8a1e7d1457df2e5a3c51c73235be")).unwrap();
    t!(m.child(h).unwrap().text(0x0488ade4), "xprv9uPDJpEQgRQfDcW7BkF7eTya6RPxXeJCqCJGHuCJ4GiRVLzkTXBAJMu2qaMWPrS7AANYqdq6vcBcBUdJCVVFceUvJFjaPdGZ2y9WACViL4L");
    // RFC 6979 (secp256k1/SHA-256, widely published): key 1, "Satoshi Nakamoto"
    let (s, r) = ec::sign(&ec::ONE, &sha256(b"Satoshi Nakamoto"));
    t!(hex(&s), "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d82442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5");
    t!(ec::recover(&s, r, &sha256(b"Satoshi Nakamoto")), Some(ec::G));
    t!(ec::mul_g(&ec::N.sub_borrow(&ec::ONE).0), Some((ec::G.0, ec::FP.neg(&ec::G.1))));
    t!(ec::mul(&ec::N, &Some(ec::G)), None);
    t!(ec::on_curve(&ec::G.0, &ec::G.1), true);
    Ok(())
}
#[cfg(test)]
mod tests { #[test] fn vectors() { super::self_test().unwrap(); } }
