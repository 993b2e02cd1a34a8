//! Mnemonics, phrases, seeds, word lists (C01-C06, C26, C29).
use crate::common::*;

fn check_mnemonic(m: &Mnemonic, l: Lang, ent: &[u8], phrase: &str) -> Res {
    same!(m.phrase(), phrase, "phrase of entropy {}", hex(ent));
    same!(hex(m.entropy()), hex(ent), "reported entropy");
    same!(m.language(), lang(l), "reported language");
    Ok(())
}
fn c01_one(l: Lang, ent: &[u8]) -> Res {
    let m = Mnemonic::from_entropy(ent, lang(l)).need(&format!("from_entropy({})", hex(ent)))?;
    check_mnemonic(&m, l, ent, &m39::encode(l, ent).unwrap())
}

pub fn c01(r: &mut Run) {
    crate::near::sections(r, &["entropies"]);
    let nbg = r.q(5, 12);
    r.section("every word at every position", format!("2 languages x 5 sizes x {} backgrounds x every word position x all 2048 word numbers", nbg), |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let bg = c.pick(nbg);
        let pos = c.pick(n * 8 * 33 / 32 / 11);
        let base = m39::bits_of(&background(bg, n));
        for w in 0..2048u32 {
            let mut b = base.clone();
            for i in 0..11 { if pos * 11 + i < b.len() { b[pos * 11 + i] = (w >> (10 - i)) & 1 == 1; } }
            let ent = m39::bytes_of(&b);
            c01_one(l, &ent)?;
            if w % 256 == 0 { c.state(&(l as u8, &ent)); }
        }
        c.steps(2048);
        c.note(|| format!("{:?} {} bytes, background {}, word {} swept over 2048 values", l, n, bg, pos));
        Ok(())
    });
    let far = r.q(130usize, 600);
    r.section("contents that look like something else", format!("2 languages x every length 0..={} x some 100 contents (texts in common notations, framed and padded data, keys, patterns): the right lengths give their phrase, the others are refused", far), |c| {
        let l = *c.of(&LANGS);
        let n = c.pick(far + 1);
        for (what, e) in looks(n) {
            c.step();
            if SIZES.contains(&n) { c01_one(l, &e).map_err(|x| format!("{}: {}", what, x))?; c.state(&e); }
            else { let r = Mnemonic::from_entropy(&e, lang(l)); ensure!(r.is_err(), "{} bytes ({}) were accepted as an entropy: {}", n, what, hex(&e)); }
        }
        Ok(())
    });
    r.section("every byte pair near the checksum", "2 languages x 5 sizes x all 65536 values of the last two bytes, and of the first two", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let at = *c.of(&[n - 2, 0]);
        let hi = c.pick(256) as u8;
        let mut e = background(4, n);
        e[at] = hi;
        for lo in 0..=255u8 { e[at + 1] = lo; c01_one(l, &e)?; }
        c.steps(256);
        c.state(&(l as u8, &e));
        Ok(())
    });
    let max = r.q(9000, 70_000);
    r.section("every entropy length", format!("2 languages x all lengths 0..={} bytes and lengths congruent to valid ones modulo 2^8, 2^13, 2^16, 2^21, 2^29 and 2^32 bits", max), |c| {
        let l = *c.of(&LANGS);
        let mut far = vec![];
        for s in SIZES { for k in [32usize, 256, 8192, 65536, 1 << 18] { far.push(s + k); } }
        if c.pick(2) == 1 {
            let n = *c.of(&far);
            let e = fill(7, n);
            c.step();
            ensure!(Mnemonic::from_entropy(&e, lang(l)).is_err(), "{} bytes of entropy were accepted", n);
            return Ok(());
        }
        let block = c.pick(max / 100 + 1);
        for n in block * 100..(block * 100 + 100).min(max + 1) {
            for tag in [7u64, 0] {
                let e = if tag == 0 { vec![0; n] } else { fill(tag, n) };
                c.step();
                match Mnemonic::from_entropy(&e, lang(l)) {
                    Ok(m) => { ensure!(SIZES.contains(&n), "{} bytes of entropy were accepted: {}", n, m.phrase()); check_mnemonic(&m, l, &e, &m39::encode(l, &e).unwrap())?; c.fact("accepted"); }
                    Err(e) => { ensure!(!SIZES.contains(&n), "{} bytes of entropy were refused: {:?}", n, e); c.fact("refused"); }
                }
            }
        }
        Ok(())
    });
    r.section("two special bytes", "2 languages x 5 sizes x 2 backgrounds x every pair of byte positions x {00, 01, 02, 0f, 10, 40, 7f, 80, 81, c0, f0, f8, fe, ff} each", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let bg = 4 + c.pick(2);
        let i = c.pick(n);
        const V: [u8; 14] = [0, 1, 2, 0x0f, 0x10, 0x40, 0x7f, 0x80, 0x81, 0xc0, 0xf0, 0xf8, 0xfe, 0xff];
        let mut e = background(bg, n);
        for j in 0..i { for a in V { for b in V {
            let (x, y) = (e[i], e[j]);
            e[i] = a; e[j] = b;
            c01_one(l, &e)?;
            e[i] = x; e[j] = y;
            c.step();
        } } }
        c.state(&(l as u8, n, bg, i));
        Ok(())
    });
    r.section("single bits", "2 languages x 5 sizes x 2 backgrounds x every pair of entropy bits flipped", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let bg = c.pick(2);
        let i = c.pick(n * 8);
        for j in 0..=i {
            let mut e = background(bg, n);
            e[i / 8] ^= 0x80 >> (i % 8);
            if i != j { e[j / 8] ^= 0x80 >> (j % 8); }
            c01_one(l, &e)?;
            c.step();
        }
        c.state(&(l as u8, n, bg, i));
        Ok(())
    });
}

// ---- C02, C03 ------------------------------------------------------------------------------
/// Import `s` and compare with the model; the strongest form of every import property.
fn import(c: &mut Ch, l: Lang, s: &str) -> Res {
    let want = m39::import(l, s);
    let got = Mnemonic::from_phrase(s, lang(l));
    c.step();
    c.note(|| format!("from_phrase({:?}, {:?}) -> {}", s, l, if got.is_ok() { "accepted" } else { "refused" }));
    let canon = m39::canonical(s) == s;
    let val = Mnemonic::validate(s, lang(l));
    match (&got, &want) {
        (Ok(m), Ok((phrase, ent))) => {
            c.fact("accepted");
            check_mnemonic(m, l, ent, phrase)?;
            let again = Mnemonic::from_entropy(m.entropy(), lang(l)).need("re-encoding")?;
            same!(again.phrase(), phrase.as_str(), "re-encoded phrase");
            if canon { ensure!(val.is_ok(), "validate refuses the valid phrase {:?}: {:?}", s, val.err()); }
        }
        (Err(e), Err(d)) => {
            c.fact("refused");
            let words = m39::canonical(s);
            let empty = words.is_empty();
            for (e, what) in [Some((e, "from_phrase")), val.as_ref().err().filter(|_| canon).map(|e| (e, "validate"))].into_iter().flatten() {
                let ok = match why(e) {
                    Why::Word => d.word || empty,
                    Why::Count(n) => d.count == Some(n) || (empty && n <= 1),
                    Why::Checksum => d.checksum,
                    _ => false,
                };
                ensure!(ok, "{} of {:?} says {:?}, but its defects are {:?}", what, clip(s), e, d);
            }
        }
        (Ok(m), Err(d)) => return Err(format!("{:?} was accepted as {:?} ({:?}) although it has {:?}", clip(s), m.phrase(), l, d)),
        (Err(e), Ok(_)) => return Err(format!("the valid phrase {:?} ({:?}) was refused: {:?}", clip(s), l, e)),
    }
    if val.is_ok() { ensure!(got.is_ok(), "validate accepts {:?} which from_phrase refuses", clip(s)); }
    Ok(())
}
/// A valid phrase (word numbers) whose word at `pos` is `w`, when the position lies outside the checksum word.
fn idx_with(n: usize, bg: usize, pos: usize, w: u16) -> Vec<u16> {
    let mut b = m39::bits_of(&background(bg, n));
    for i in 0..11 { if pos * 11 + i < b.len() { b[pos * 11 + i] = (w >> (10 - i)) & 1 == 1; } }
    m39::encode_idx(&m39::bytes_of(&b))
}
fn near_misses(l: Lang, w: &str) -> Vec<String> {
    let cs: Vec<char> = w.chars().collect();
    let mut v: Vec<String> = vec![];
    let other = m39::words(if l == Lang::En { Lang::Zh } else { Lang::En })[7];
    v.push(other.into());
    v.push(format!("{}{}", w, w));
    for i in 0..cs.len() {
        let mut d = cs.clone(); d.remove(i); v.push(d.iter().collect());
        let mut d = cs.clone(); d.insert(i, cs[i]); v.push(d.iter().collect());
        if i > 0 { let mut d = cs.clone(); d.swap(i - 1, i); v.push(d.iter().collect()); }
        for x in ['a', 'e', 's', 'y', '的', '一'] { let mut d = cs.clone(); d[i] = x; v.push(d.iter().collect()); }
        let mut d = cs.clone(); d[i] = d[i].to_ascii_uppercase(); v.push(d.iter().collect());
        for x in ['\u{200b}', '\u{301}', '\0', '-', '.', '\''] { let mut d = cs.clone(); d.insert(i, x); v.push(d.iter().collect()); }
        v.push(cs[..i].iter().collect());
    }
    for x in ["s", "e", "'", "\u{feff}", "\u{200d}", ",", "0", "\u{301}"] { v.push(format!("{}{}", w, x)); v.push(format!("{}{}", x, w)); }
    v.push(w.to_uppercase());
    v
}

/// The same words written in some other way, throughout, from some word on, up to some word, or in all but one.
fn respell(l: Lang, ws: &[&str]) -> Vec<String> {
    let other = |w: &str| m39::words(if l == Lang::En { Lang::Zh } else { Lang::En })[m39::word_index(l, w).unwrap() as usize].to_string();
    let wide = |w: &str, base: u32| w.chars().map(|c| if c.is_ascii_lowercase() { char::from_u32(base + (c as u32 - 'a' as u32)).unwrap() } else { c }).collect::<String>();
    let title = |w: &str| { let mut c = w.chars(); c.next().map(|x| x.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default() };
    let take = |w: &str, n: usize| w.chars().take(n).collect::<String>();
    let fs: Vec<(&str, Box<dyn Fn(usize, &str) -> String + '_>)> = vec![
        ("upper case", Box::new(|_, w| w.to_uppercase())), ("title case", Box::new(move |_, w| title(w))),
        ("alternating case", Box::new(|_, w| w.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect())),
        ("last letter upper case", Box::new(|_, w| { let n = w.chars().count(); w.chars().enumerate().map(|(i, c)| if i + 1 == n { c.to_ascii_uppercase() } else { c }).collect() })),
        ("reversed", Box::new(|_, w| w.chars().rev().collect())),
        ("first three letters", Box::new(move |_, w| take(w, 3))), ("first four letters", Box::new(move |_, w| take(w, 4))), ("first five letters", Box::new(move |_, w| take(w, 5))),
        ("without the last letter", Box::new(|_, w| { let n = w.chars().count(); w.chars().take(n - 1).collect() })),
        ("without the first letter", Box::new(|_, w| w.chars().skip(1).collect())),
        ("without vowels", Box::new(|_, w| w.chars().filter(|c| !"aeiou".contains(*c)).collect())),
        ("twice", Box::new(|_, w| format!("{} {}", w, w))), ("doubled", Box::new(|_, w| format!("{}{}", w, w))),
        ("plural", Box::new(|_, w| format!("{}s", w))), ("comma", Box::new(|_, w| format!("{},", w))), ("full stop", Box::new(|_, w| format!("{}.", w))), ("ideographic comma", Box::new(|_, w| format!("{}、", w))),
        ("quoted", Box::new(|_, w| format!("\"{}\"", w))), ("in brackets", Box::new(|_, w| format!("[{}]", w))),
        ("numbered", Box::new(|i, w| format!("{}. {}", i + 1, w))), ("numbered closely", Box::new(|i, w| format!("{}.{}", i + 1, w))), ("numbered before", Box::new(|i, w| format!("{} {}", i + 1, w))), ("numbered in brackets", Box::new(|i, w| format!("{}){}", i + 1, w))),
        ("as numbers", Box::new(move |_, w| m39::word_index(l, w).unwrap().to_string())), ("as numbers from one", Box::new(move |_, w| (m39::word_index(l, w).unwrap() + 1).to_string())), ("as four digits", Box::new(move |_, w| format!("{:04}", m39::word_index(l, w).unwrap()))), ("in hexadecimal", Box::new(move |_, w| format!("{:03x}", m39::word_index(l, w).unwrap()))),
        ("the other language", Box::new(move |_, w| other(w))),
        ("wide letters", Box::new(move |_, w| wide(w, 0xff41))), ("bold letters", Box::new(move |_, w| wide(w, 0x1d41a))), ("circled letters", Box::new(move |_, w| wide(w, 0x24d0))), ("wide capitals", Box::new(move |_, w| wide(w, 0xff21))),
        ("accented", Box::new(|_, w| w.chars().flat_map(|c| [c, '\u{301}']).collect())), ("joined invisibly", Box::new(|_, w| w.chars().flat_map(|c| [c, '\u{200d}']).collect())), ("soft hyphen", Box::new(|_, w| format!("{}\u{ad}", w))), ("marked left to right", Box::new(|_, w| format!("\u{200e}{}", w))), ("variation selector", Box::new(|_, w| format!("{}\u{fe0f}", w))), ("byte order mark", Box::new(|_, w| format!("\u{feff}{}", w))),
        ("next word of the list", Box::new(move |_, w| m39::words(l)[(m39::word_index(l, w).unwrap() as usize + 1) % 2048].to_string())),
        ("word of the complement", Box::new(move |_, w| m39::words(l)[2047 - m39::word_index(l, w).unwrap() as usize].to_string())),
        ("word of the bits reversed", Box::new(move |_, w| m39::words(l)[(m39::word_index(l, w).unwrap().reverse_bits() >> 5) as usize].to_string())),
    ];
    let n = ws.len();
    let mut o = vec![];
    for (_, f) in &fs {
        let mut put = |sel: &dyn Fn(usize) -> bool| o.push(ws.iter().enumerate().map(|(i, w)| if sel(i) { f(i, w) } else { w.to_string() }).collect::<Vec<_>>().join(" "));
        put(&|_| true);
        for k in 0..n { put(&|i| i <= k); put(&|i| i >= k); put(&|i| i != k); }
        put(&|i| i % 2 == 0);
    }
    for sep in ["", "-", ",", ", ", "_", ".", "/", "+", "%20", "\\n", "\0", "、", "·", "\u{200b}", "\u{2060}", "\u{feff}", "\u{180e}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{2423}", "\u{1c}", "\n", "\t \r\n", "\u{b}"] {
        o.push(ws.join(sep));
        for k in 1..n { o.push(format!("{}{}{}", ws[..k].join(" "), sep, ws[k..].join(" "))); }
    }
    let t = ws.join(" ");
    for (a, b) in [("\"", "\""), ("'", "'"), ("[", "]"), ("mnemonic: ", ""), ("mnemonic ", ""), ("english ", ""), ("", " english"), ("", "\0"), ("\0", ""), ("", " "), ("\u{feff}", ""), ("", ";"), ("", " ."), ("", "\n# note"), ("", " TREZOR"), ("# ", ""), ("\u{202e}", "")] { o.push(format!("{}{}{}", a, t, b)); }
    let rev: Vec<&str> = ws.iter().rev().cloned().collect();
    o.push(rev.join(" "));
    o.push(t.chars().rev().collect());
    o.push(format!("{} {}", t, t));
    let e: Vec<&str> = ws.iter().step_by(2).chain(ws.iter().skip(1).step_by(2)).cloned().collect(); o.push(e.join(" "));
    let mut sorted = ws.to_vec(); sorted.sort(); o.push(sorted.join(" ")); sorted.dedup(); o.push(sorted.join(" "));
    o.push(m39::import(l, &t).map(|x| hex(&x.1)).unwrap_or_default());
    o
}

pub fn c02(r: &mut Run) {
    crate::near::sections(r, &["phrases"]);
    let nbg = r.q(2, 8);
    r.section("valid phrases", format!("2 languages x 5 sizes x {} backgrounds x every position x all 2048 words", nbg), |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let bg = *c.of(&[4usize, 0, 1, 2, 3, 5, 6, 7][..nbg]);
        let pos = c.pick(n * 3 / 4);
        for w in 0..2048 {
            let idx = idx_with(n, bg, pos, w);
            import(c, l, &m39::text(l, &idx))?;
        }
        c.state(&(l as u8, n, bg, pos));
        Ok(())
    });
    r.section("checksum word", format!("2 languages x 5 sizes x {} backgrounds x all 2048 last words: exactly 2^(11-checksum bits) accepted", r.q(5, 60)), {
        let nbg = r.q(5, 60);
        move |c| {
            let l = *c.of(&LANGS);
            let n = *c.of(&SIZES);
            let bg = c.pick(nbg);
            let mut idx = m39::encode_idx(&background(bg, n));
            let last = idx.len() - 1;
            let mut ok = 0;
            for w in 0..2048u16 {
                idx[last] = w;
                let t = m39::text(l, &idx);
                import(c, l, &t)?;
                if m39::decode_idx(&idx).is_some() { ok += 1; }
            }
            let cs = n / 4;
            if ok != 1 << (11 - cs) { panic!("model: {} last words", ok) }
            c.state(&(l as u8, n, bg));
            Ok(())
        }
    });
    r.section("one word replaced", format!("2 languages x 5 sizes x every position x all 2048 words, {} backgrounds", r.q(2, 6)), {
        let nbg = r.q(2, 6);
        move |c| {
            let l = *c.of(&LANGS);
            let n = *c.of(&SIZES);
            let bg = 4 + c.pick(nbg);
            let good = m39::encode_idx(&background(bg, n));
            let pos = c.pick(good.len());
            for w in 0..2048u16 {
                let mut idx = good.clone();
                idx[pos] = w;
                import(c, l, &m39::text(l, &idx))?;
            }
            c.state(&(l as u8, n, bg, pos));
            Ok(())
        }
    });
    r.section("words exchanged", "2 languages x 5 sizes x all pairs of positions swapped, and all rotations and the reversal", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let bg = 4 + c.pick(3);
        let good = m39::encode_idx(&background(bg, n));
        let i = c.pick(good.len());
        for j in 0..good.len() {
            let mut idx = good.clone(); idx.swap(i, j);
            import(c, l, &m39::text(l, &idx))?;
        }
        let mut idx = good.clone(); idx.rotate_left(i);
        import(c, l, &m39::text(l, &idx))?;
        idx.reverse();
        import(c, l, &m39::text(l, &idx))?;
        Ok(())
    });
    let maxn = r.q(80, 400);
    r.section("word counts", format!("2 languages x every count 0..={} and counts congruent to valid ones modulo 2^8, 2^16; with a matching generalised checksum where one exists, all-equal words, and random words", maxn), |c| {
        let l = *c.of(&LANGS);
        let mut counts: Vec<usize> = (0..=maxn).collect();
        for k in [256usize, 65536] { for x in COUNTS { counts.push(k + x); } }
        let n = *c.of(&counts);
        let kind = c.pick(4);
        let idx: Vec<u16> = match kind {
            0 => {
                // the BIP39 encoding of n*32/3 bits, where that is a whole number of bytes
                if n % 3 != 0 { return Ok(()); }
                let ent = fill(n as u64, n * 4 / 3);
                let mut b = m39::bits_of(&ent);
                let h = m39::bits_of(&sha256(&ent));
                for i in 0..n / 3 { b.push(h[i % h.len()]); }
                m39::groups(&b)
            }
            1 => vec![0; n],
            2 => (0..n).map(|i| (i * 331 % 2048) as u16).collect(),
            _ => {
                // a valid 12-word phrase repeated and cut
                let g = m39::encode_idx(&background(4, 16));
                (0..n).map(|i| g[i % 12]).collect()
            }
        };
        let mut t = m39::text(l, &idx);
        import(c, l, &t)?;
        t.push(' ');
        import(c, l, &t)?;
        c.state(&(l as u8, n, kind));
        Ok(())
    });
    r.section("unknown words", "2 languages x {12,24} and one unsupported count x every position x 7 list words x every near-miss of the word (letters dropped, doubled, swapped, changed, other case, other language, invisible characters, prefixes)", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&[12usize, 24, 13]);
        let pos = c.pick(n);
        let w = *c.of(&[0u16, 1, 511, 1023, 1024, 1900, 2047]);
        let base = if n == 13 { let mut v = idx_with(16, 4, 0, 5); v.push(9); v } else { idx_with(n * 4 / 3, 4, pos.min(n - 2), w) };
        for bad in near_misses(l, m39::words(l)[w as usize]) {
            let mut ws: Vec<&str> = base.iter().map(|i| m39::words(l)[*i as usize]).collect();
            ws[pos] = &bad;
            import(c, l, &ws.join(" "))?;
        }
        c.state(&(l as u8, n, pos, w));
        Ok(())
    });
    let nb = r.q(4, 40);
    r.section("whole phrases respelled", format!("2 languages x 5 sizes x {} backgrounds, offered in both languages: 40 ways to write every word otherwise (case, abbreviation, numbering, punctuation, scripts, marks, other list positions), throughout, up to and from every word, in all but one and in every other; 26 separators throughout and in one place; wrappings, orders", nb), move |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let t = m39::encode(l, &background(c.pick(nb), n)).unwrap();
        let o = *c.of(&LANGS);
        let ws: Vec<&str> = t.split(' ').collect();
        for s in respell(l, &ws) { import(c, o, &s)?; }
        c.state(&t);
        Ok(())
    });
    r.section("language mix", "phrases of one language offered in the other, and every single position replaced by the other language's word", |c| {
        let l = *c.of(&LANGS);
        let o = if l == Lang::En { Lang::Zh } else { Lang::En };
        let n = *c.of(&SIZES);
        let idx = m39::encode_idx(&background(4 + c.pick(4), n));
        import(c, o, &m39::text(l, &idx))?;
        for p in 0..idx.len() {
            let mut ws: Vec<&str> = idx.iter().map(|i| m39::words(l)[*i as usize]).collect();
            ws[p] = m39::words(o)[idx[p] as usize];
            import(c, l, &ws.join(" "))?;
        }
        Ok(())
    });
    if r.thorough {
        r.section("two words replaced", "English and Chinese, 12 words: every pair of neighbouring positions x 2048 x 64 words", |c| {
            let l = *c.of(&LANGS);
            let good = m39::encode_idx(&background(4, 16));
            let pos = c.pick(11);
            let a = c.pick(64) as u16 * 32 + 5;
            for b in 0..2048u16 {
                let mut idx = good.clone();
                idx[pos] = a; idx[pos + 1] = b;
                import(c, l, &m39::text(l, &idx))?;
            }
            c.state(&(l as u8, pos, a));
            Ok(())
        });
    }
}

pub fn c03(r: &mut Run) {
    crate::near::sections(r, &["phrases"]);
    // separators
    let seps: Vec<String> = {
        let w: Vec<char> = m39::WHITES.iter().map(|c| char::from_u32(*c).unwrap()).collect();
        let mut v: Vec<String> = vec![" ".into()];
        v.extend(w.iter().filter(|c| **c != ' ').map(|c| c.to_string()));
        v.push("  ".into()); v.push(" \u{3000}".into()); v.push("\r\n".into()); v.push("\t \n\u{a0}\u{2003}".into()); v.push(" ".repeat(70));
        v
    };
    let outer: Vec<String> = std::iter::once(String::new()).chain(seps.iter().cloned()).collect();
    let sizes: &[usize] = r.q(&[16][..], &[16, 32][..]);
    r.section_dev("white space", "2 languages: every choice of separator (each Unicode white-space character, runs, mixtures, 70 spaces) at up to 2 of all gaps and both ends", 2, |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(sizes);
        let idx = m39::encode_idx(&background(4, n));
        let mut s = c.dev_of(&outer).clone();
        for (i, w) in idx.iter().enumerate() {
            if i > 0 { s.push_str(c.dev_of(&seps)); }
            s.push_str(m39::words(l)[*w as usize]);
        }
        s.push_str(c.dev_of(&outer));
        import(c, l, &s)
    });
    r.section("whole phrases respelled", "2 languages x 5 sizes x 3 backgrounds in some 2000 other spellings each: white space and compatibility letters give the same mnemonic, everything else is refused", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let t = m39::encode(l, &background(8 + c.pick(3), n)).unwrap();
        let ws: Vec<&str> = t.split(' ').collect();
        for s in respell(l, &ws) { import(c, l, &s)?; }
        c.state(&t);
        Ok(())
    });
    r.section("uniform white space", "2 languages x 5 sizes x every separator used throughout, at the ends or not", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let sep = c.of(&seps).clone();
        let ends = c.pick(4);
        let idx = m39::encode_idx(&background(5, n));
        let mut s = idx.iter().map(|i| m39::words(l)[*i as usize]).collect::<Vec<_>>().join(&sep);
        if ends & 1 == 1 { s = format!("{}{}", sep, s); }
        if ends & 2 == 2 { s = format!("{}{}", s, sep); }
        import(c, l, &s)
    });
    r.section("not white space", "2 languages: every other separator-like character at every gap (zero-width, control, punctuation, no separator at all)", |c| {
        let l = *c.of(&LANGS);
        let idx = m39::encode_idx(&background(4, 16));
        let bad = ["", "\u{200b}", "\u{200c}", "\u{200d}", "\u{2060}", "\u{feff}", "\u{180e}", "\u{1c}", "\u{1d}", "\u{1e}", "\u{1f}", "\u{0}", "\u{7f}", ",", "-", "_", "/", "\u{b7}", "\u{3001}", "\u{2400}", "\u{ad}", "\u{8}", "\u{1b}", "\\n", "%20", "+"];
        let b = *c.of(&bad);
        let pad = *c.of(&["", " "]);
        let gap = c.pick(13);
        let mut s = String::new();
        for (i, w) in idx.iter().enumerate() {
            if i == gap { s.push_str(pad); s.push_str(b); if i > 0 && pad == " " && b.is_empty() { } }
            else if i > 0 { s.push(' '); }
            s.push_str(m39::words(l)[*w as usize]);
        }
        if gap == 12 { s.push_str(pad); s.push_str(b); }
        import(c, l, &s)
    });
    // spellings of every piece of every word
    r.section("compatibility spellings", "2 languages x all 2048 words x every piece of the word that some single character spells under NFKD x every such character (ligatures, fullwidth, mathematical, superscript, circled, compatibility ideographs, radicals)", |c| {
        let l = *c.of(&LANGS);
        let w = c.pick(2048) as u16;
        let word: Vec<char> = m39::words(l)[w as usize].chars().collect();
        let idx = idx_with(16, 4, 3, w);
        for i in 0..word.len() {
            for j in i + 1..=word.len().min(i + 4) {
                let piece: String = word[i..j].iter().collect();
                for s in m39_spellings(&piece) {
                    let mut ws: Vec<String> = idx.iter().map(|i| m39::words(l)[*i as usize].to_string()).collect();
                    ws[3] = word[..i].iter().copied().chain(std::iter::once(s)).chain(word[j..].iter().copied()).collect();
                    import(c, l, &ws.join(" "))?;
                }
            }
        }
        c.state(&(l as u8, w));
        Ok(())
    });
    r.section("whole-phrase spellings", "English x 5 sizes x every style that spells all letters (the k-th spelling of each letter), with ideographic or plain spaces", |c| {
        let n = *c.of(&SIZES);
        let k = c.pick(26);
        let sep = *c.of(&[" ", "\u{3000}", "\u{2003}"]);
        let idx = m39::encode_idx(&background(6, n));
        let t = m39::text(Lang::En, &idx);
        let s: String = t.chars().map(|ch| if ch == ' ' { sep.to_string() } else { let v = m39_spellings(&ch.to_string()); v[k % v.len()].to_string() }).collect();
        import(c, Lang::En, &s)?;
        // and the seeds agree
        if k < 2 {
            let m = Mnemonic::from_phrase(&s, Language::English).need("import")?;
            same!(hex(Seed::new(&m, "pw").as_bytes()), hex(&m39::seed(Lang::En, &t, "pw")), "seed of the restyled phrase");
        }
        Ok(())
    });
    r.section("alterations", "2 languages x 12 words x every position x every near-miss of the word (case, glue, invisible and combining characters)", |c| {
        let l = *c.of(&LANGS);
        let bg = 4 + c.pick(2);
        let idx = m39::encode_idx(&background(bg, 16));
        let pos = c.pick(12);
        let word = m39::words(l)[idx[pos] as usize];
        for bad in near_misses(l, word) {
            let mut ws: Vec<&str> = idx.iter().map(|i| m39::words(l)[*i as usize]).collect();
            ws[pos] = &bad;
            import(c, l, &ws.join(" "))?;
        }
        Ok(())
    });
    r.section("any character inserted", "2 languages: every Unicode scalar value inserted alone between two words, at the start of a word, or inside one", |c| {
        let l = *c.of(&LANGS);
        let place = c.pick(3);
        let block = c.pick(0x110000 / 256);
        // planes 3..13 and the private planes hold nothing that NFKD or White_Space treats specially
        if !c_thorough() && (block * 256) >= 0x30000 && block % 64 != 0 { return Ok(()); }
        let idx = m39::encode_idx(&background(4, 16));
        let t = m39::text(l, &idx);
        let g = t.find(' ').unwrap();
        for x in block * 256..block * 256 + 256 {
            let ch = match char::from_u32(x as u32) { Some(ch) if m39::known(x as u32) => ch, _ => continue };
            let mut s = t.clone();
            match place { 0 => { s.insert(g, ch); s.insert(g, ' '); } 1 => s.insert(g + 1, ch), _ => s.insert(t.chars().next().unwrap().len_utf8(), ch) }
            import(c, l, &s)?;
        }
        Ok(())
    });
    if r.thorough {
        r.section_dev("two compatibility letters", "English 12 words: every pair of letters respelled by up to 2 characters each out of all spellings", 2, |c| {
            let idx = m39::encode_idx(&background(4, 16));
            let t = m39::text(Lang::En, &idx);
            let mut s = String::new();
            for ch in t.chars() {
                if ch == ' ' { s.push(' '); continue; }
                let mut v = vec![ch];
                v.extend(m39_spellings(&ch.to_string()).into_iter().take(7));
                s.push(*c.dev_of(&v));
            }
            import(c, Lang::En, &s)
        });
    }
}
static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn set_thorough(t: bool) { THOROUGH.store(t, std::sync::atomic::Ordering::Relaxed) }
fn c_thorough() -> bool { THOROUGH.load(std::sync::atomic::Ordering::Relaxed) }
fn m39_spellings(t: &str) -> Vec<char> {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static C: OnceLock<Mutex<HashMap<String, Vec<char>>>> = OnceLock::new();
    let m = C.get_or_init(Default::default);
    if let Some(v) = m.lock().unwrap().get(t) { return v.clone(); }
    let v = m39::spellings(t);
    m.lock().unwrap().insert(t.into(), v.clone());
    v
}

// ---- C04 -----------------------------------------------------------------------------------
fn seed_eq(c: &mut Ch, l: Lang, phrase: &str, pass: &str) -> Result<String, String> {
    let m = Mnemonic::from_phrase(phrase, lang(l)).need("import")?;
    let got = Seed::new(&m, pass);
    c.step();
    let want = hex(&m39::seed(l, phrase, pass));
    same!(hex(got.as_bytes()), want, "seed of {:?} with passphrase {:?}", phrase, clip(pass));
    c.state(&want);
    Ok(want)
}
fn phrase_of(l: Lang, tag: usize, n: usize) -> String { m39::encode(l, &background(tag, n)).unwrap() }

pub fn c04(r: &mut Run) {
    crate::near::sections(r, &["seeds"]);
    let passes: Vec<String> = {
        let mut v: Vec<String> = ["", " ", "TREZOR", "trezor", "mnemonic", "pass word", " pass", "pass ", "  ", "\t", "\n", "\r\n", "\0", "a\0b", "\0\0", "\u{7f}", "\u{feff}x", "x\u{200b}",
            "é", "e\u{301}", "\u{1e69}", "s\u{323}\u{307}", "s\u{307}\u{323}", "\u{fb01}", "fi", "Ａ", "A", "１２３", "²", "㍍ガバヴァぱばぐゞちぢ十人十色", "ﾊﾞ", "한글", "\u{1112}\u{1161}\u{11ab}\u{1100}\u{1173}\u{11af}",
            "\u{ac00}", "\u{1100}\u{1161}", "\u{3000}", "\u{a0}", "\u{2003}", "\u{301}", "\u{315}\u{300}\u{5ae}b", "😀", "\u{10ffff}", "\u{2f800}", "\u{fdfa}", "ß", "SS", "ı", "İ", "Ǆ", "\u{340}", "\u{1d160}", "نص", "שׁ", "%00", "\\", "\"", "'", "mnemonicTREZOR"].iter().map(|s| s.to_string()).collect();
        v.push("x".repeat(64)); v.push("x".repeat(1000)); v.push("é".repeat(200));
        v
    };
    r.section("size, language, passphrase", format!("2 languages x 5 sizes x {} passphrases", passes.len()), |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let p = c.of(&passes).clone();
        let s = seed_eq(c, l, &phrase_of(l, 4, n), &p)?;
        c.note(|| format!("{:?} {} bytes, passphrase {:?}: seed {}", l, n, p, s));
        Ok(())
    });
    let telling: Vec<String> = {
        let mut v: Vec<String> = vec![];
        for n in [1usize, 2, 3, 4, 8, 12, 16, 20, 31, 32, 33, 40, 63, 64, 65, 66, 100, 111, 112, 127, 128, 129, 130] { for (_, b) in looks(n) { if let Ok(t) = String::from_utf8(b) { v.push(t); } } }
        for t in ["0x", "0x00", "x", "null", "NULL", "None", "nil", "undefined", "true", "false", "-", "--", "0", "00", "-1", "''", "\"\"", "'a'", "\"a\"", "`a`", "(a)", "[a]", "{a}", "<a>", "$a", "${a}", "%a", "%s", "{}", "{0}", "a%20b", "a+b", "a&b", "&amp;", "&#97;", "\\u0061", "\\n", "\\\\", "a\\", "#a", "a#b", "a;b", "a,b", "a|b", "a:b", "a=b", "a/b", "//a", "/*a*/", "a\nb", "a\rb", "a\r\n", "\ra", "\u{1b}[0m", "\u{8}a", "a\u{8}", "\u{202e}a", "\u{2066}a\u{2069}", "a\u{ad}b", "a\u{200d}b", "a\u{fe0f}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f1e9}\u{1f1ea}", "\u{e000}", "\u{fffd}", "\u{fffe}", "\u{feff}", "a\u{feff}", "passphrase:a", "passphrase", "password", "mnemonic ", "mnemonicmnemonic", "Mnemonic", "MNEMONIC", "mnemoni", "mnemonic\0", "salt", "electrum", "Bitcoin seed", "25th", "abandon", "a  b", "a\tb", " a b ", "~", "^", "°", "µ", "™", "…", "½", "ﬀ", "ﬃ", "Ⅷ", "①", "㎏", "ℌ", "ſ", "ẛ̣", "İ", "i̇", "Σς", "ά", "ά", "Å", "Å", "Å", "Ω", "Ω", "가", "각", "が", "か゛", "ｶﾞ", "ｶ", "豈", "的", "的一是在不了有和人这中大", "的 一 是"] { v.push(t.to_string()); }
        for l in LANGS { let p = phrase_of(l, 4, 16); v.push(p.clone()); v.push(format!(" {}", p)); v.push(hex(&background(4, 16))); v.push(m39::words(l)[0].to_string()); v.push(p.split(' ').next().unwrap().to_string()); v.push(p.rsplit(' ').next().unwrap().to_string()); v.push(hex(&m39::seed(l, &p, ""))); }
        let mut seen = std::collections::HashSet::new();
        v.retain(|t| seen.insert(t.clone()));
        v
    };
    r.section("passphrases that look like something else", format!("2 languages x {} passphrases: hex, base64, escapes, quoting, comments, placeholders, separators, invisible and look-alike characters, the phrase itself, ...", telling.len()), |c| {
        let l = *c.of(&LANGS);
        let t = c.of(&telling).clone();
        seed_eq(c, l, &phrase_of(l, 4, 16), &t)?;
        Ok(())
    });
    let maxlen = r.q(1100, 2200);
    r.section("passphrase lengths", format!("every length 0..={} of one-byte, two-byte and three-byte characters", maxlen), |c| {
        let n = c.pick(maxlen + 1);
        let ch = *c.of(&["q", "ü", "あ"]);
        let l = LANGS[n % 2];
        if c_thorough() || n % 2 == 0 || n < 80 || ch == "q" { seed_eq(c, l, &phrase_of(l, 5, 16), &ch.repeat(n))?; }
        Ok(())
    });
    let far: Vec<usize> = { let mut v = vec![]; for k in 11..=r.q(17usize, 21) { for d in [-9i64, -8, -1, 0, 1] { v.push(((1i64 << k) + d) as usize); } } v.extend([1500, 3000, 5000, 10_000, 50_000, 100_000, 1 << 20, (1 << 20) + 1]); v };
    r.section("long passphrases", format!("{} lengths around powers of two to 2^20 bytes, one-byte and three-byte characters", far.len()), |c| {
        let n = *c.of(&far);
        let ch = *c.of(&["q", "あ"]);
        seed_eq(c, Lang::En, &phrase_of(Lang::En, 5, 16), &format!("{}z", ch.repeat(n / ch.len())))?;
        Ok(())
    });
    r.section("phrase lengths", "one English phrase of every byte length that occurs (around HMAC's 128-byte block in particular), 12 to 24 words", |c| {
        let n = *c.of(&SIZES);
        // deterministic search for phrases of distinct lengths
        let mut by: std::collections::BTreeMap<usize, String> = Default::default();
        for w in [3usize, 4, 5, 6, 7, 8] {
            for alt in 0..n * 3 / 4 {
                let pool = |len: usize| -> Vec<u16> { (0..2048u16).filter(|i| m39::words(Lang::En)[*i as usize].len() == len).collect() };
                let (a, b) = (pool(w), pool(if w < 8 { w + 1 } else { 3 }));
                let idx: Vec<u16> = (0..n * 3 / 4).map(|i| if i < alt { b[i * 7 % b.len()] } else { a[i * 5 % a.len()] }).collect();
                let ent = m39::bytes_of(&m39::ungroup(&idx)[..n * 8]);
                let t = m39::encode(Lang::En, &ent).unwrap();
                by.entry(t.len()).or_insert(t);
            }
        }
        let v: Vec<String> = by.into_values().collect();
        let t = c.of(&v).clone();
        seed_eq(c, Lang::En, &t, "")?;
        Ok(())
    });
    r.section("every decomposing character", "every character NFKD changes and every combining mark, in packs of 64, alone and after a letter", |c| {
        let mut v = m39::decomposing();
        v.extend((0..0x110000u32).filter(|x| m39::known(*x)).filter_map(char::from_u32).filter(|ch| m39::ccc(*ch) != 0));
        let packs: Vec<&[char]> = v.chunks(64).collect();
        let p = c.pick(packs.len());
        let sep = c.pick(2);
        let s: String = packs[p].iter().map(|ch| if sep == 1 { format!("a{}", ch) } else { ch.to_string() }).collect();
        seed_eq(c, Lang::En, &phrase_of(Lang::En, 4, 16), &s)?;
        c.facts("characters", packs[p].len() as u64);
        Ok(())
    });
    r.section("every code point", "all Unicode scalar values, 512 to a passphrase", |c| {
        let b = c.pick(0x110000 / 512);
        let s: String = (b * 512..b * 512 + 512).filter(|x| m39::known(*x as u32)).filter_map(|x| char::from_u32(x as u32)).collect();
        if s.is_empty() { return Ok(()); }
        if !c_thorough() && (0x30000..0xe0000).contains(&(b * 512)) && b % 16 != 0 { return Ok(()); }
        seed_eq(c, Lang::En, &phrase_of(Lang::En, 4, 16), &s)?;
        Ok(())
    });
    r.section("canonical ordering", "all ordered pairs of combining classes (one mark of each), and triples of 9 classes, each after a letter", |c| {
        let mut reps: std::collections::BTreeMap<u8, char> = Default::default();
        for x in (0..0x110000u32).filter(|x| m39::known(*x)) { if let Some(ch) = char::from_u32(x) { if m39::ccc(ch) != 0 { reps.entry(m39::ccc(ch)).or_insert(ch); } } }
        let v: Vec<char> = reps.into_values().collect();
        let k = c.pick(2);
        let s: String = if k == 0 {
            let a = *c.of(&v);
            v.iter().map(|b| format!("a{}{}", a, b)).collect()
        } else {
            let w: Vec<char> = v.iter().step_by(v.len() / 9).cloned().take(9).collect();
            let a = *c.of(&w);
            let mut s = String::new();
            for b in &w { for d in &w { s.push('o'); s.push(a); s.push(*b); s.push(*d); } }
            s
        };
        seed_eq(c, Lang::Zh, &phrase_of(Lang::Zh, 4, 32), &s)?;
        Ok(())
    });
    r.section("equivalent passphrases", "each decomposing pair {composed, decomposed, reordered} gives one seed; each significant difference (case, space, NUL, length, prefix) gives different seeds", |c| {
        let l = *c.of(&LANGS);
        let t = phrase_of(l, 6, 16);
        let same_sets: [&[&str]; 6] = [&["é", "e\u{301}"], &["\u{1e69}", "s\u{323}\u{307}", "s\u{307}\u{323}"], &["ﬁ", "fi"], &["한", "\u{1112}\u{1161}\u{11ab}"], &["Å", "\u{212b}", "A\u{30a}"], &["\u{3000}", " ", "\u{a0}"]];
        let diff: &[&str] = &["", " ", "a", "A", "a ", " a", "a\0", "a\u{301}", "aa", "ｂ", "\u{200b}a", "a\n"];
        if c.pick(2) == 0 {
            let set = *c.of(&same_sets);
            let a = seed_eq(c, l, &t, set[0])?;
            for s in set { let b = seed_eq(c, l, &t, s)?; same!(b, a, "seed of equivalent passphrase {:?}", s); }
        } else {
            let mut seen = std::collections::HashMap::new();
            for s in diff { let h = seed_eq(c, l, &t, s)?; if let Some(o) = seen.insert(h, *s) { return Err(format!("passphrases {:?} and {:?} give the same seed", o, s)); } }
        }
        Ok(())
    });
    r.section("every Chinese word's bytes", "each of the 2048 Chinese words inside a phrase, through the seed", |c| {
        let b = c.pick(2048 / 11 + 1);
        let idx: Vec<u16> = (0..11).map(|i| ((b * 11 + i) % 2048) as u16).collect();
        let ent = m39::bytes_of(&m39::ungroup(&[&idx[..], &[0]].concat())[..128]);
        seed_eq(c, Lang::Zh, &m39::encode(Lang::Zh, &ent).unwrap(), "")?;
        let m = Mnemonic::from_entropy(&ent, Language::ChineseSimplified).need("from_entropy")?;
        same!(hex(&m.as_bytes()), hex(&m39::phrase_bytes(Lang::Zh, m.phrase())), "phrase bytes");
        Ok(())
    });
    crate::rare::seeds(r, |_, _, _| Ok(()));
}

// ---- C05, C06 ------------------------------------------------------------------------------
pub fn c05(r: &mut Run) {
    crate::near::sections(r, &["words"]);
    r.section("number to word to number", "2 languages x all 2048 numbers, both directions", |c| {
        let l = *c.of(&LANGS);
        let b = c.pick(64);
        for i in (b * 32)..(b * 32 + 32) {
            let w = lang(l).wordlist().get_word((i as u16).into());
            same!(w, m39::words(l)[i], "word number {}", i);
            let n: u16 = lang(l).wordmap().get_bits(w).need(&format!("number of {:?}", w))?.into();
            same!(n as usize, i, "number of {:?}", w);
            c.steps(2);
            c.state(&(l as u8, i));
        }
        Ok(())
    });
    r.section("words outside the list", "every near-miss of every word of both lists, the other language's whole list, the empty string, prefixes", |c| {
        let l = *c.of(&LANGS);
        let w = c.pick(2048);
        let o = if l == Lang::En { Lang::Zh } else { Lang::En };
        let mut v = near_misses(l, m39::words(l)[w]);
        v.push(m39::words(o)[w].to_string());
        v.push(String::new());
        for s in [" ", "\n", "\0"] { v.push(format!("{}{}", m39::words(l)[w], s)); v.push(format!("{}{}", s, m39::words(l)[w])); v.push(s.to_string()); }
        for s in v {
            let got = lang(l).wordmap().get_bits(&s).ok().map(u16::from);
            same!(got, m39::word_index(l, &s), "number of {:?} in {:?}", s, l);
            c.step();
        }
        Ok(())
    });
    r.section("all short strings", format!("all strings of up to {} letters a-z looked up in both languages", r.q(5, 6)), {
        let d = r.q(5, 6);
        move |c| {
            let (a, b) = (c.pick(27), c.pick(27));
            let mut stack = vec![];
            let mut s = String::new();
            if a > 0 { s.push((96 + a as u8) as char); }
            if b > 0 { if a == 0 { return Ok(()); } s.push((96 + b as u8) as char); }
            stack.push(s);
            while let Some(s) = stack.pop() {
                for l in LANGS {
                    let got = lang(l).wordmap().get_bits(&s).ok().map(u16::from);
                    same!(got, m39::word_index(l, &s), "number of {:?} in {:?}", s, l);
                    c.step();
                }
                if s.len() >= 2 && s.len() < d { for x in b'a'..=b'z' { let mut t = s.clone(); t.push(x as char); stack.push(t); } }
            }
            Ok(())
        }
    });
    r.section("every character as a word", "all Unicode scalar values as one-character words in both languages", |c| {
        let l = *c.of(&LANGS);
        let b = c.pick(0x110000 / 4096);
        for x in b * 4096..b * 4096 + 4096 {
            if let Some(ch) = char::from_u32(x as u32) {
                let s = ch.to_string();
                same!(lang(l).wordmap().get_bits(&s).ok().map(u16::from), m39::word_index(l, &s), "number of {:?}", s);
                c.step();
            }
        }
        Ok(())
    });
    r.section("every character next to a word", "4 words x all Unicode scalar values put before, inside, after, or in place of one letter of the word; as a word of the list and as the first word of a phrase", |c| {
        let b = c.pick(0x110000 / 4096);
        let (l, w) = *c.of(&[(Lang::En, "zoo"), (Lang::En, "abandon"), (Lang::Zh, "的"), (Lang::Zh, "歇")]);
        let cs: Vec<char> = w.chars().collect();
        let k = cs.len() / 2;
        for x in b * 4096..b * 4096 + 4096 {
            let ch = match char::from_u32(x as u32) { Some(ch) => ch, None => continue };
            let mut v = vec![format!("{}{}", ch, w), format!("{}{}", w, ch)];
            if k > 0 { let mut d = cs.clone(); d.insert(k, ch); v.push(d.iter().collect()); d.remove(k); d[k] = ch; v.push(d.iter().collect()); d[k] = cs[k]; d[0] = ch; v.push(d.iter().collect()); }
            for s in v {
                same!(lang(l).wordmap().get_bits(&s).ok().map(u16::from), m39::word_index(l, &s), "number of {:?}", s);
                let first = s.split(|ch: char| m39::WHITES.contains(&(ch as u32))).find(|s| !s.is_empty()).unwrap_or("");
                let want = if m39::word_index(Lang::En, first).is_some() { Some(Language::English) } else if m39::word_index(Lang::Zh, first).is_some() { Some(Language::ChineseSimplified) } else { None };
                // a compatibility spelling is the word for import: whether it counts here is left open
                if want.is_some() || m39::canonical(&s).split(' ').next().map_or(true, |f| m39::word_index(Lang::En, f).is_none() && m39::word_index(Lang::Zh, f).is_none()) {
                    same!(Language::from_phrase(&s), want, "language of a phrase starting {:?}", s);
                }
                c.step();
            }
        }
        Ok(())
    });
    r.section("phrase language", "every generated phrase (each word first, 2 languages, 5 sizes) is recognised; first words in no list and empty texts are not", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let b = c.pick(32);
        for w in b * 64..b * 64 + 64 {
            let idx = idx_with(n, 4, 0, w as u16);
            let t = m39::text(l, &idx);
            let m = Mnemonic::from_entropy(&m39::decode_idx(&idx).unwrap(), lang(l)).need("from_entropy")?;
            same!(m.phrase(), t.as_str(), "phrase");
            same!(Language::from_phrase(m.phrase()), Some(lang(l)), "language of {:?}", t);
            for pre in [" ", "\n", "\u{3000}"] { same!(Language::from_phrase(&format!("{}{}", pre, t)), Some(lang(l)), "language of {:?} after white space", t); }
            c.steps(4);
            for bad in near_misses(l, m39::words(l)[w]) {
                // the first white-space separated word decides
                let first = bad.split(|ch: char| m39::WHITES.contains(&(ch as u32))).find(|s| !s.is_empty()).unwrap_or("");
                let want = if m39::word_index(Lang::En, first).is_some() { Some(Language::English) } else if m39::word_index(Lang::Zh, first).is_some() { Some(Language::ChineseSimplified) } else { None };
                if first.is_empty() || want.is_some() { continue; }
                same!(Language::from_phrase(&format!("{} zoo 的", bad)), want, "language of a phrase starting {:?}", bad);
                c.step();
            }
        }
        Ok(())
    });
    r.section("something else first", "2 languages x every Unicode scalar value that is neither white space nor a word (beyond plane 2 every 16th block of 256), alone or doubled, and 40 other tokens as the first word, an ordinary phrase behind it", |c| {
        let l = *c.of(&LANGS);
        let t = m39::encode(l, &background(4, 16)).unwrap();
        let b = c.pick(0x1100);
        if b > 0x300 && b % 16 != 0 { return Ok(()); }
        let one = |c: &mut Ch, first: &str| -> Res {
            if m39::word_index(Lang::En, first).is_some() || m39::word_index(Lang::Zh, first).is_some() || first.chars().any(|ch| m39::WHITES.contains(&(ch as u32))) { return Ok(()); }
            same!(Language::from_phrase(&format!("{} {}", first, t)), None, "language of a phrase behind {:?}", first);
            c.step();
            Ok(())
        };
        for u in b * 256..b * 256 + 256 { if let Some(ch) = char::from_u32(u as u32) { one(c, &ch.to_string())?; one(c, &format!("{0}{0}", ch))?; } }
        if b == 0 { for w in ["1.", "(1)", "1)", "#1", "12", "words:", "seed:", "phrase", "my", "--", "...", "\"", "'", "<p>", "//", "*", "•", "en", "zh-cn", "EN", "English", "中文", "助记词", "a", "I", "the", "abandonn", "aband", "Abandon", "ABANDON", "\u{feff}abandon", "abandon,", "abandon.", "abandonability", "的一", "的,", "\u{200b}", "的\u{fe0f}", "ａｂａｎｄｏｎ", "абандон"] { one(c, w)?; } }
        Ok(())
    });
    r.section("no words", "texts without words", |c| {
        let s = *c.of(&["", " ", "\t\n", "\u{3000}", "\u{2003} \u{a0}"]);
        same!(Language::from_phrase(s), None, "language of {:?}", s);
        c.step();
        Ok(())
    });
    r.section("language codes", "all strings of up to 3 characters over {e,E,n,N,z,Z,h,H,-,_,c,C,space,é,ſ,K} (longer ones to 5 over the code letters), every single edit of a valid code, and every Unicode scalar value in and around one", |c| {
        let alpha = ["e", "E", "n", "N", "z", "Z", "h", "H", "-", "_", "c", "C", " ", "é", "ſ", "\u{212a}", "0", "t", "w"];
        let want = |s: &str| -> Option<Language> {
            let t: String = s.chars().map(|c| if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c }).collect();
            match t.as_str() { "en" => Some(Language::English), "zh-cn" => Some(Language::ChineseSimplified), _ => None }
        };
        let test = |s: &str, c: &mut Ch| -> Res { same!(Language::from_language_code(s), want(s), "language code {:?}", s); c.step(); if want(s).is_some() { c.fact("recognised") } Ok(()) };
        match c.pick(4) {
            3 => {
                let b = c.pick(0x110000 / 4096);
                for x in b * 4096..b * 4096 + 4096 { if let Some(ch) = char::from_u32(x as u32) { for s in [format!("{}en", ch), format!("en{}", ch), format!("e{}", ch), format!("{}n", ch), format!("zh{}cn", ch), format!("{}h-cn", ch), format!("zh-cn{}", ch)] { test(&s, c)?; } } }
                Ok(())
            }
            0 => {
                let n = c.pick(4);
                let mut s = String::new();
                for _ in 0..n { s.push_str(*c.of(&alpha)); }
                test(&s, c)
            }
            1 => {
                let mut s = String::new();
                for _ in 0..5 { s.push_str(*c.of(&["z", "Z", "h", "H", "-", "c", "C", "n", "N"])); }
                test(&s, c)
            }
            _ => {
                let base = *c.of(&["en", "zh-cn", "EN", "ZH-CN", "Zh-Cn", "zh-hans", "zh-tw", "fr", "ja", "zh", "cn", "english", "en-us", "zhcn", "zh_cn"]);
                test(base, c)?;
                for i in 0..=base.len() { for a in alpha { let mut s = base.to_string(); s.insert_str(i, a); test(&s, c)?; if i < base.len() { let mut s = base.to_string(); s.replace_range(i..i + 1, a); test(&s, c)?; } } if i < base.len() { let mut s = base.to_string(); s.remove(i); test(&s, c)?; } }
                Ok(())
            }
        }
    });
    r.section("default language", "the default is English", |_| { same!(Language::default(), Language::English, "default language"); Ok(()) });
}
pub fn c06(r: &mut Run) {
    crate::near::sections(r, &["words"]);
    let want = |l: Lang, p: &str| -> Vec<&'static str> { m39::words(l).iter().cloned().filter(|w| w.starts_with(p)).collect() };
    r.section("prefixes of words", "2 languages x every prefix of every word, each also extended by every letter a-z and 12 other characters", |c| {
        let l = *c.of(&LANGS);
        let w = m39::words(l)[c.pick(2048)];
        let cs: Vec<char> = w.chars().collect();
        for i in 0..=cs.len() {
            let p: String = cs[..i].iter().collect();
            let mut v = vec![p.clone()];
            for x in ('a'..='z').chain(['A', 'Z', ' ', '\0', '~', '{', '`', '-', 'é', '的', '\u{301}', '\u{10ffff}']) { v.push(format!("{}{}", p, x)); v.push(format!("{}{}", x, p)); }
            for p in v {
                let got = lang(l).wordlist().get_words_by_prefix(&p);
                same!(got, &want(l, &p)[..], "words of {:?} starting with {:?}", l, p);
                c.step();
            }
        }
        c.state(&(l as u8, w));
        Ok(())
    });
    r.section("all short prefixes", format!("all strings of up to {} letters a-z", r.q(4, 5)), {
        let d = r.q(4, 5);
        move |c| {
            let a = c.pick(26);
            let l = *c.of(&LANGS);
            let mut stack = vec![((b'a' + a as u8) as char).to_string()];
            while let Some(s) = stack.pop() {
                same!(lang(l).wordlist().get_words_by_prefix(&s), &want(l, &s)[..], "words of {:?} starting with {:?}", l, s);
                c.step();
                if s.len() < d { for x in b'a'..=b'z' { let mut t = s.clone(); t.push(x as char); stack.push(t); } }
            }
            Ok(())
        }
    });
    r.section("empty prefix", "2 languages", |c| {
        let l = *c.of(&LANGS);
        same!(lang(l).wordlist().get_words_by_prefix(""), &m39::words(l)[..], "the whole list");
        Ok(())
    });
    r.section("every character as a prefix", "all Unicode scalar values (beyond plane 2 every 16th block of 256) alone, before and after a prefix, both languages", |c| {
        let l = *c.of(&LANGS);
        let b = c.pick(0x110000 / 256);
        if b * 256 >= 0x30000 && b % 16 != 0 { return Ok(()); }
        let firsts: std::collections::HashSet<char> = m39::words(l).iter().map(|w| w.chars().next().unwrap()).collect();
        for x in b * 256..b * 256 + 256 {
            if let Some(ch) = char::from_u32(x as u32) {
                let s = ch.to_string();
                let want = if firsts.contains(&ch) { want(l, &s) } else { vec![] };
                same!(lang(l).wordlist().get_words_by_prefix(&s), &want[..], "words of {:?} starting with {:?}", l, s);
                c.step();
                for (w, rest) in [("zo", &["zone", "zoo"][..]), ("歇", &["歇"][..])] {
                    for s in [format!("{}{}", w, ch), format!("{}{}", ch, w)] {
                        let want: Vec<&str> = if (l == Lang::En) == (w == "zo") { if ch.is_ascii() { m39::words(l).iter().cloned().filter(|x| x.starts_with(&s)).collect() } else { rest.iter().cloned().filter(|x| x.starts_with(&s)).collect() } } else { vec![] };
                        same!(lang(l).wordlist().get_words_by_prefix(&s), &want[..], "words of {:?} starting with {:?}", l, s);
                        c.step();
                    }
                }
            }
        }
        Ok(())
    });
}

// ---- C26, C29 ------------------------------------------------------------------------------
pub fn c26(r: &mut Run) {
    crate::near::sections(r, &["renderings"]);
    crate::nest::failing_writers(r);
    r.section("mnemonic entropy in hex", "2 languages x 5 sizes x every byte position x all 256 values x 4 hex forms, display, debug, conversions", |c| {
        let l = *c.of(&LANGS);
        let n = *c.of(&SIZES);
        let pos = c.pick(n);
        let bg = c.pick(3);
        for v in 0..=255u8 {
            let mut e = background([4, 0, 1][bg], n);
            e[pos] = v;
            let m = Mnemonic::from_entropy(&e, lang(l)).need("from_entropy")?;
            let p = m39::encode(l, &e).unwrap();
            let h = hex(&e);
            same!(format!("{:x}", m), h, "lower hex");
            same!(format!("{:X}", m), h.to_uppercase(), "upper hex");
            same!(format!("{:#x}", m), format!("0x{}", h), "alternate lower hex");
            same!(format!("{:#X}", m), format!("0x{}", h.to_uppercase()), "alternate upper hex");
            for (f, w) in [(format!("{:3x}", m), h.clone()), (format!("{:0200x}", m), h.clone()), (format!("{:.3X}", m), h.to_uppercase()), (format!("{:+x}", m), h.clone()), (format!("{:#0200X}", m), format!("0x{}", h.to_uppercase()))] { same!(f, w, "hex under other flags"); }
            same!(format!("{}", m), p, "display");
            same!(format!("{:?}", m), format!("{:?}", p), "debug");
            same!(m.to_string(), p, "to_string");
            same!(AsRef::<str>::as_ref(&m), p.as_str(), "as_ref");
            same!(m.phrase(), p.as_str(), "phrase");
            let k = m.clone();
            same!(k.into_phrase(), p, "into_phrase");
            same!(String::from(m), p, "String::from");
            c.steps(16);
        }
        c.state(&(l as u8, n, pos, bg));
        Ok(())
    });
    r.section("seed in hex", format!("{} seeds x 4 hex forms and views", r.q(4000, 60_000)), {
        let n = r.q(4000, 60_000);
        move |c| {
            let i = c.pick(n);
            let l = LANGS[i % 2];
            let m = Mnemonic::from_entropy(&fill(i as u64, SIZES[i % 5]), lang(l)).need("from_entropy")?;
            let s = Seed::new(&m, &format!("{}", i));
            let h = hex(s.as_bytes());
            same!(s.as_bytes().len(), 64, "seed length");
            same!(hex(AsRef::<[u8]>::as_ref(&s)), h, "as_ref");
            same!(format!("{:x}", s), h, "lower hex");
            same!(format!("{:X}", s), h.to_uppercase(), "upper hex");
            same!(format!("{:#x}", s), format!("0x{}", h), "alternate lower hex");
            same!(format!("{:#X}", s), format!("0x{}", h.to_uppercase()), "alternate upper hex");
            same!(format!("{:?}", s), format!("0x{}", h.to_uppercase()), "debug");
            for (f, w) in [(format!("{:3x}", s), h.clone()), (format!("{:0200x}", s), h.clone()), (format!("{:.3X}", s), h.to_uppercase()), (format!("{:+x}", s), h.clone()), (format!("{:#0200X}", s), format!("0x{}", h.to_uppercase())), (format!("{:#?}", s), format!("0x{}", h.to_uppercase()))] { same!(f, w, "hex under other flags"); }
            let k = s.clone();
            same!(hex(k.as_bytes()), h, "clone");
            c.steps(13);
            for b in s.as_bytes() { c.state(b); }
            Ok(())
        }
    });
    crate::rare::seeds(r, |c, s, w| { same!(format!("{:x} {:X} {:#x} {:#X}", s, s, s, s), format!("{} {} 0x{} 0x{}", hex(w), hex(w).to_uppercase(), hex(w), hex(w).to_uppercase()), "hex forms of a seed"); same!(s.as_ref(), w, "seed bytes"); c.steps(5); Ok(()) });
}
pub fn c29(r: &mut Run) {
    crate::near::sections(r, &["sizes"]);
    let all = [MnemonicType::Words12, MnemonicType::Words15, MnemonicType::Words18, MnemonicType::Words21, MnemonicType::Words24];
    r.section("table", "the five sizes", |c| {
        let i = c.pick(5);
        let (w, k) = (COUNTS[i], SIZES[i] * 8);
        for (t, what) in [(all[i], "constant"), (MnemonicType::for_word_count(w).need("for_word_count")?, "for_word_count"), (MnemonicType::for_key_size(k).need("for_key_size")?, "for_key_size")] {
            same!(t.word_count(), w, "{}: words", what);
            same!(t.entropy_bits(), k, "{}: entropy bits", what);
            same!(t.checksum_bits() as usize, k / 32, "{}: checksum bits", what);
            same!(t.total_bits(), k + k / 32, "{}: total bits", what);
            same!(t.total_bits(), w * 11, "{}: total bits", what);
            c.steps(5);
        }
        Ok(())
    });
    let max = r.q(2_000_000usize, 50_000_000);
    r.section("every count and size", format!("all integers 0..={}, and valid values plus every multiple of 2^k for k=8..=63", max), |c| {
        let one = |n: usize, c: &mut Ch| -> Res {
            match MnemonicType::for_word_count(n) {
                Ok(t) => { ensure!(COUNTS.contains(&n), "{} words are accepted as {:?}", n, t); same!(t.word_count(), n, "words"); c.fact("accepted") }
                Err(e) => { ensure!(!COUNTS.contains(&n), "{} words are refused", n); same!(why(&e), Why::Count(n), "error for {} words", n); ensure!(e.to_string().contains(&n.to_string()), "error text {:?}", e.to_string()); c.fact("refused") }
            }
            match MnemonicType::for_key_size(n) {
                Ok(t) => { ensure!(n % 8 == 0 && SIZES.contains(&(n / 8)), "{} bits are accepted as {:?}", n, t); same!(t.entropy_bits(), n, "bits"); c.fact("accepted") }
                Err(e) => { ensure!(n % 8 != 0 || !SIZES.contains(&(n / 8)), "{} bits are refused", n); same!(why(&e), Why::Keysize(n), "error for {} bits", n); c.fact("refused") }
            }
            c.steps(2);
            Ok(())
        };
        if c.pick(2) == 0 {
            let b = c.pick(max / 1000 + 1);
            for n in b * 1000..b * 1000 + 1000 { one(n, c)?; }
        } else {
            let k = 8 + c.pick(56);
            for m in [1usize, 3, 5] { for v in COUNTS.iter().cloned().chain(SIZES.iter().map(|s| s * 8)).chain([0]) { one(v.wrapping_add(m.wrapping_shl(k as u32)), c)?; one((m << k.min(60)).wrapping_sub(v), c)?; } }
            one(usize::MAX, c)?;
        }
        Ok(())
    });
    r.section("sizing a phrase", "2 languages x every word count 0..=70 and congruent counts, valid words or not", |c| {
        let l = *c.of(&LANGS);
        let mut counts: Vec<usize> = (1..=70).collect();
        for x in COUNTS { counts.push(256 + x); counts.push(65536 + x); }
        let n = *c.of(&counts);
        let junk = c.flag();
        let t = if junk { vec!["x"; n].join(" ") } else { m39::text(l, &(0..n).map(|i| (i * 77 % 2048) as u16).collect::<Vec<_>>()) };
        match MnemonicType::for_phrase(&t) {
            Ok(m) => { same!(m.word_count(), n, "size of a phrase of {} words", n); }
            Err(e) => { ensure!(!COUNTS.contains(&n), "a phrase of {} words is refused", n); same!(why(&e), Why::Count(n), "error for a phrase of {} words", n); }
        }
        c.step();
        Ok(())
    });
    r.section("generated phrases", "2 languages x 5 sizes: sizing a mnemonic's phrase gives back its type", |c| {
        let l = *c.of(&LANGS);
        let i = c.pick(5);
        let m = Mnemonic::from_entropy(&background(4, SIZES[i]), lang(l)).need("from_entropy")?;
        let t = MnemonicType::for_phrase(m.phrase()).need("for_phrase")?;
        same!(t.entropy_bits(), m.entropy().len() * 8, "entropy bits");
        same!(t.word_count(), COUNTS[i], "words");
        Ok(())
    });
}
