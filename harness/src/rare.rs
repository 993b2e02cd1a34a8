//! Arguments whose results are rare: digests, scalars, coordinates, signatures, seeds and texts with
//! runs of up to 31 zero or one bits at their ends, and runs of zero bytes inside.  They were searched
//! for among up to 2^31 arguments of each family; a driver recomputes everything from the argument.
use crate::common::*;
/// Filler bytes that end in the given number.
pub fn ending(tag: u64, n: usize, i: u32) -> Vec<u8> { let mut v = fill(tag, n); v[n - 4..].copy_from_slice(&i.to_be_bytes()); v }
pub fn ending32(tag: u64, i: u32) -> [u8; 32] { ending(tag, 32, i).try_into().unwrap() }
/// How long the zero run at either end is, for coverage facts.
pub fn zeros(b: &[u8]) -> usize { b.iter().take_while(|x| **x == 0).count().max(b.iter().rev().take_while(|x| **x == 0).count()) }
/// 16-byte seeds `ending(1005, 16, i)`.
pub const ROOT: &[u32] = &[2, 12, 62, 93, 129, 169, 171, 178, 182, 211, 223, 295, 316, 391, 392, 409, 509, 549, 566, 594, 596, 627, 783, 934, 943, 954, 1042, 1260, 1343, 1352, 1364, 1415, 1743, 1784, 2408, 3249, 3491, 3562, 3683, 4073, 4356, 4696, 4873, 5509, 5968, 6173, 6924, 7902, 8074, 10256, 10788, 11339, 11643, 13308, 16312, 16500, 16611, 20358, 21015, 22474, 22810, 28005, 36579, 41841, 44656, 47168, 47619, 52329, 60820, 69349, 71320, 87721, 101284, 107239, 114483, 116754, 138104, 139995, 145709, 200526, 205126, 217472, 219218, 223965, 227651, 251331, 291884, 305637, 326681, 357486, 357769, 377370, 382262, 383356, 418329, 493851, 508394, 750191, 753131, 1035566, 1074331, 1097904, 1150888, 1182174, 1226319, 1299458, 1368632, 1687873, 1867278, 2047754, 2150801, 2242345, 2259272, 2433195, 2459034, 3355752, 3527652, 3558132, 4012565, 4056635, 4386782, 4417056, 4769081, 5419539, 7272003, 7393769, 7774153, 9891307, 10028543, 10574262, 11744014, 15625582, 17696564, 18691621, 18855096, 19018009, 20317965, 21370723, 21636202, 22935971, 23305584, 24331238, 25984949, 30316571, 33326506, 34543132, 36758504, 39167441, 40416687, 40710368, 43978650, 45634032, 48844978, 52618748, 55312137, 61211571, 62433994, 81515302, 82606223, 83595849, 101056230, 105324569, 132774361, 153636848, 154237328, 159662737, 193636858, 214323436, 214758641, 259846402, 263000116, 293337191, 313128184, 334801200, 425400979, 426505593, 507150997, 529933468];
/// hardened children i | 2^31 of the key 1000, chain code 1001.
pub const CHILD: &[u32] = &[3, 7, 17, 25, 74, 78, 79, 91, 112, 135, 154, 158, 166, 168, 193, 225, 243, 244, 251, 331, 379, 392, 398, 496, 568, 606, 696, 711, 742, 786, 788, 796, 899, 905, 941, 1010, 1011, 1042, 1151, 1167, 1246, 1262, 1274, 1307, 1324, 1496, 1611, 1638, 1676, 1687, 1718, 2050, 2116, 2932, 3124, 3334, 3535, 3605, 3756, 3814, 3944, 4148, 4598, 4747, 4878, 5183, 5390, 7733, 7757, 8470, 9216, 9957, 10450, 11171, 11324, 11787, 12174, 12666, 13690, 14592, 14716, 14962, 16733, 17598, 17827, 19053, 19181, 19482, 19521, 22158, 23047, 23435, 23520, 27987, 29172, 29811, 31313, 32898, 33965, 37944, 38649, 44229, 46664, 56752, 57487, 57840, 66272, 70364, 74516, 74630, 75752, 83002, 87091, 87140, 94117, 97037, 109990, 126775, 140889, 144457, 147206, 151074, 166712, 167039, 187122, 201495, 226454, 246146, 250889, 270125, 285973, 293144, 324889, 378340, 400471, 426863, 443290, 459563, 469076, 487107, 552858, 565595, 602750, 671308, 704379, 722429, 743816, 779216, 818587, 866222, 985346, 1021689, 1053850, 1105411, 1123425, 1164457, 1227141, 1249444, 1259406, 1417017, 1448522, 1585859, 1610173, 1638933, 1655973, 1867507, 1927190, 2047154, 2098136, 2183774, 2275794, 2313916, 2325564, 2425655, 2530612, 2833768, 3005986, 3141584, 3189796, 3411661, 3419097, 3577182, 3666262, 4278033, 4353001, 4359662, 4592616, 4858367, 5431408, 5724675, 5874997, 6571030, 7266269, 7972680, 8516333, 8817625, 8913615, 9178216, 11126125, 11970995, 12539743, 13090179, 13531006, 13965033, 14329830, 14379942, 14448823, 15672585, 16027011, 17575708, 19660430, 20104119, 24666200, 26018218, 26766341, 29525536, 30658965, 31068310, 31780506, 32494526, 38107267, 38618586, 40402385, 49285112, 55016737, 58173053, 62767998, 67753846, 68166943, 72417626, 74912014, 76266166, 77251113, 79279629, 80915266, 95429758, 95497231, 95838103, 106734117, 108087357, 121445597, 136250740, 145280087, 149971237, 151337688, 155097322, 166499526, 169709335, 171852274, 176220908, 186910696, 191733312, 231662478, 240903212, 265191655, 280418408, 288446923, 290694930, 308447698, 338306023, 352170949, 364488874, 379371544, 395587955, 407923575, 442164894, 475783867, 491993892, 569938215, 589663791, 591869151, 619012239, 629079358, 668047787, 773712278, 793915316, 946296365, 1125642441, 1199551483, 1232249177, 1301797169, 1305275153, 1347278786, 1447695654, 1631461047, 1713484313, 1819456200, 1822208535, 1875502245, 1991055554, 2040449226];
/// private keys `ending(1002, 32, i)`: point, SHA-256, HASH160, fingerprint.
pub const KEY: &[u32] = &[2, 4, 14, 18, 30, 69, 84, 186, 224, 249, 262, 267, 270, 338, 365, 392, 397, 426, 435, 443, 486, 488, 503, 549, 555, 566, 605, 620, 686, 786, 871, 912, 958, 969, 1006, 1018, 1023, 1213, 1222, 1335, 1435, 1517, 1563, 1618, 1697, 1857, 2101, 2331, 2389, 2526, 2586, 2977, 2980, 3159, 3269, 3347, 3354, 3424, 3582, 3707, 3751, 3814, 3815, 4234, 4749, 4920, 5334, 5517, 6204, 6305, 7138, 7344, 8833, 9091, 9103, 9277, 9372, 9899, 10418, 10592, 10656, 11336, 12032, 12121, 12601, 12741, 12865, 12871, 13564, 13728, 13906, 14154, 18419, 19305, 19465, 22415, 23493, 24198, 25104, 25868, 27045, 30611, 32220, 33260, 34616, 34629, 37199, 37481, 38868, 40970, 42299, 43264, 44601, 45127, 45767, 49540, 49566, 51484, 58340, 62258, 66040, 66965, 69485, 71503, 78764, 79589, 83918, 86231, 86997, 92032, 92483, 96358, 96522, 110314, 126947, 127278, 129610, 130321, 136178, 136282, 137276, 147523, 147645, 152946, 157053, 172546, 176270, 185815, 187001, 189590, 215934, 220886, 246535, 276648, 286072, 293717, 307738, 325352, 366667, 398916, 426940, 436106, 446106, 450771, 455815, 466513, 494592, 504709, 520595, 528076, 543395, 553551, 562742, 593300, 622047, 633094, 682180, 712043, 819244, 870426, 876849, 877113, 886538, 976674, 988799, 1023251, 1033721, 1074033, 1090784, 1120874, 1158692, 1230200, 1321219, 1333335, 1350335, 1592135, 1677671, 1738065, 1747412, 1751934, 2003121, 2053007, 2165352, 2246340, 2297571, 2383814, 2533727, 3023319, 3070826, 3564517, 3728112, 4063310, 4655943, 4765126, 4851150, 5159820, 5160642, 5507189, 6152301, 6193995, 7751573, 7937867, 8156882, 8363000, 8438101, 8459727, 8472487, 8508023, 8635799, 9674113, 12954125, 13237230, 13357709, 13800164, 13975757, 14675515, 14948894];
/// digests `ending(1004, 32, i)` under key 1003.
pub const SIGN: &[u32] = &[1, 2, 98, 138, 188, 190, 288, 309, 371, 415, 458, 479, 493, 731, 894, 1088, 1093, 1095, 1530, 1649, 1699, 1707, 1748, 1851, 2656, 2939, 3116, 3378, 3448, 3515, 3543, 3676, 4033, 4110, 5010, 5167, 5291, 6747, 6812, 7433, 7902, 8169, 8619, 10618, 10636, 11483, 11873, 12619, 15705, 16359, 17212, 19905, 22032, 22890, 26776, 29772, 30832, 35624, 43453, 43541, 51209, 60828, 63134, 65370, 73060, 74649, 75501, 76815, 82844, 97887, 100723, 103420, 124625, 129112, 133046, 145212, 147323, 156047, 175202, 216637, 225206, 233425, 259258, 281758, 284395, 297992, 372952, 437057, 441543, 457968, 461646, 605767, 768127, 1063040, 1361300, 1974700, 2082848];
/// decimal passphrases of the phrase of `background(4, 16)`.
pub const SEED: &[u32] = &[4, 20, 87, 136, 158, 165, 225, 552, 653, 980, 1101, 1564, 1707, 2447, 2521, 3033, 3246, 5575, 5695, 7909, 8302, 12308, 14000, 14582, 14583, 14901, 16446, 17172, 18457, 24653, 25156, 26617, 29555, 42995, 46215, 56718, 59103, 59719, 103752];
/// decimal texts.
pub const RIPEMD: &[u32] = &[3, 82, 137, 182, 260, 336, 421, 478, 518, 581, 824, 828, 836, 948, 1359, 1994, 2099, 4379, 4980, 5914, 6145, 8821, 9349, 9382, 11092, 11489, 14964, 16171, 17787, 18308, 22665, 22748, 28587, 31518, 52040, 63257, 84549, 85013, 100662, 167336, 219694, 265853, 274562, 319680, 517703, 599647, 726102, 765667, 767039, 954629, 986502, 1471063, 2547700, 2674182, 3269004, 3363094, 4156711, 4198929, 4669558, 5102428, 6141407, 10061739, 12462755, 15565355, 16148265, 17470164, 17772372, 20932204, 21264993, 22224731, 24329283, 27736270, 29117152, 31252430, 35243581, 60895517, 66387179, 71258104, 72728829, 88152958, 151022534, 166020348, 171796534, 177836278];
/// private key 1000, chain code 1001, depth 1, fingerprint 01010101, child number i: Base58 checksum.
pub const TEXT: &[u32] = &[28, 89, 652, 657, 686, 736, 778, 891, 1047, 1414, 1546, 2015, 2152, 2567, 2927, 3791, 3830, 5303, 5452, 5973, 8978, 9984, 10897, 10991, 11945, 13324, 14046, 14047, 14198, 21715, 28355, 37900, 44325, 48415, 50305, 54813, 66732, 95513, 137615, 220259, 243345, 266458, 268381, 301090, 318854, 393740, 439798, 456222, 589634, 812885, 919752, 1047857, 1781771, 1811511, 1935014, 3634128, 4600360, 4992825, 5322947, 5575141, 11348151, 11811591, 16789067, 20005449, 20585753, 22649430, 24219712, 29154985, 32748931, 41830942, 41851982, 43639010, 59918225, 84922229, 98712249, 105195938, 109617048, 118923562, 175615641, 183814003, 194415999];

fn bounds(v: &[u32], what: &str) -> String { format!("{} arguments searched out for results with zero or one runs at an end or zero bytes inside: {}", v.len(), what) }
fn fact(c: &mut Ch, b: &[u8]) { let z = zeros(b); if z >= 3 { c.fact("three zero bytes at an end") } else if z >= 2 { c.fact("two zero bytes at an end") } }
pub fn parent() -> Prv { Prv { k: fill32(1000), a: attrs(1, [1; 4], 9, fill32(1001)) } }

/// C08
pub fn roots(r: &mut Run) {
    r.section("rare results", bounds(ROOT, "root keys and chain codes"), |c| {
        let s = ending(1005, 16, *c.of(ROOT));
        let w = m32::master(&s);
        if let Ok(w) = &w { fact(c, &w.k); fact(c, &w.a.cc); c.state(w); }
        match_prv(XPrv::new(&s), w.clone(), false, &format!("root of seed {}", hex(&s)))?;
        let x = XPrv::new(&s).need("root")?;
        same!(x.to_string(Prefix::XPRV).as_str(), w.unwrap().text(STD[0].1), "text of the root of seed {}", hex(&s));
        c.steps(2);
        Ok(())
    });
}
/// C09, C10, C13, C16
pub fn children(r: &mut Run, check: impl Fn(&mut Ch, &Prv, u32) -> Res + Sync) {
    r.section("rare children", bounds(CHILD, "left half, chain code or child key of a hardened child; the children's children"), |c| {
        let i = HARD | *c.of(CHILD);
        let p = parent();
        check(c, &p, i)?;
        let q = p.child(i).map_err(|e| format!("{:?}", e))?;
        fact(c, &q.k); fact(c, &q.a.cc);
        for j in [0, 1, HARD, u32::MAX] { check(c, &q, j)?; }
        c.state(&q);
        Ok(())
    });
    r.section("rare points", bounds(KEY, "coordinate, hash or fingerprint of the public key; its children"), |c| {
        let p = Prv { k: ending32(1002, *c.of(KEY)), a: attrs(1, [1; 4], 9, fill32(1001)) };
        let w = m32::point(&p.k);
        fact(c, &w[1..]); fact(c, &hash160(&w));
        for j in [0, 1, 7, HARD, u32::MAX] { check(c, &p, j)?; }
        c.state(&p);
        Ok(())
    });
}
/// C04, C26
pub fn seeds(r: &mut Run, check: impl Fn(&mut Ch, &Seed, &[u8]) -> Res + Sync) {
    r.section("rare seeds", bounds(SEED, "seeds"), |c| {
        let pw = c.of(SEED).to_string();
        let ph = m39::encode(Lang::En, &background(4, 16)).unwrap();
        let s = Seed::new(&Mnemonic::from_phrase(&ph, Language::English).need("import")?, &pw);
        let w = m39::seed(Lang::En, &ph, &pw);
        fact(c, &w);
        same!(hex(s.as_bytes()), hex(&w), "seed under the passphrase {:?}", pw);
        c.step();
        c.state(&w);
        check(c, &s, &w)
    });
}
/// C21
pub fn signatures(r: &mut Run, check: impl Fn(&mut Ch, &[u8; 32], &[u8; 32]) -> Res + Sync) {
    r.section("rare signatures", bounds(SIGN, "r or s"), |c| {
        let d = ending32(1004, *c.of(SIGN));
        let (g, _) = ec::sign(&U256::from_be(&fill32(1003)), &d);
        fact(c, &g[..32]); fact(c, &g[32..]);
        c.state(&g);
        check(c, &fill32(1003), &d)
    });
}
/// C25
pub fn digests(r: &mut Run) {
    r.section("rare digests", bounds(RIPEMD, "RIPEMD-160"), |c| {
        let m = c.of(RIPEMD).to_string();
        let w = ripemd160(m.as_bytes());
        fact(c, &w);
        c.state(&w);
        c.step();
        same!(kms::crypto::ripemd(m.as_bytes()), hex(&w), "RIPEMD-160 of {:?}", m);
        Ok(())
    });
}
/// C16, C17
pub fn texts(r: &mut Run, check: impl Fn(&mut Ch, &str) -> Res + Sync) {
    r.section("rare checksums", bounds(TEXT, "Base58 checksum; and the texts of keys with rare key bytes and chain codes"), |c| {
        let n = TEXT.len();
        let i = c.pick(n + CHILD.len() + KEY.len());
        let p = if i < n { let mut p = parent(); p.a.cn = TEXT[i]; p } else if i < n + CHILD.len() { parent().child(HARD | CHILD[i - n]).unwrap() } else { Prv { k: ending32(1002, KEY[i - n - CHILD.len()]), a: parent().a } };
        for s in STD {
            let t = if s.2 { p.text(s.1) } else { p.neuter().text(s.1) };
            check(c, &t)?;
            // the same payload with a checksum that is wrong in one byte
            let raw = if s.2 { p.payload(s.1) } else { p.neuter().payload(s.1) };
            let h = sha256(&sha256(&raw));
            if i < n { fact(c, &h[..4]); }
            for b in 0..4 { for v in [1u8, 0x80, 0xff] { let mut z = raw.to_vec(); z.extend_from_slice(&h[..4]); z[78 + b] ^= v; check(c, &refmodel::b58::encode(&z))?; } }
        }
        c.state(&p);
        Ok(())
    });
}
