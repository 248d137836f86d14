//! C01-C06: the bip39 crate.
use super::base;
use crate::engine::*;
use crate::refm::{self, SIZES};
use crate::util::*;
use bip39::dictionary::{Error as DictError, Language};
use bip39::util::bits::{BitReaderBy11, BitWriterBy11};
use bip39::{Entropy, Error, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};

fn nums(m: &Mnemonics) -> Vec<u16> {
    m.as_ref().iter().map(|i| i.0).collect()
}
fn mk(w: &[u16]) -> Result<Mnemonics, Error> {
    Mnemonics::from_mnemonics(w.iter().map(|n| MnemonicIndex(*n)).collect())
}

/// Entropy -> words -> entropy against the model.
fn both_ways(ent: &[u8], cx: &mut Cx) -> R {
    let e = Entropy::from_slice(ent).map_err(|e| format!("from_slice: {}", e))?;
    ensure!(e.as_ref() == ent, "entropy {} kept as {}", hex(ent), hex(e.as_ref()));
    let want = refm::words(ent);
    let m = e.to_mnemonics();
    let got = nums(&m);
    ensure!(got == want, "entropy {}: words {:?}, BIP-39 says {:?}", hex(ent), got, want);
    ensure!(m.get_type() == e.get_type() && m.get_type().mnemonic_count() == want.len(), "type of {}", hex(ent));
    let back = Entropy::from_mnemonics(&m).map_err(|x| format!("entropy {} does not decode: {}", hex(ent), x))?;
    ensure!(back.as_ref() == ent, "entropy {} decoded as {}", hex(ent), hex(back.as_ref()));
    // and from words made by the model
    let back = mk(&want).and_then(|m| Entropy::from_mnemonics(&m)).map_err(|x| format!("{:?}: {}", want, x))?;
    ensure!(back.as_ref() == ent, "words {:?} decoded as {}", want, hex(back.as_ref()));
    cx.steps(4);
    cx.state_of(ent);
    Ok(())
}
fn text_both_ways(ent: &[u8], lang: usize, cx: &mut Cx) -> R {
    let d = LANGS[lang].to_dict();
    let w = refm::words(ent);
    let text = refm::phrase(&w, lang);
    let e = Entropy::from_slice(ent).map_err(|e| e.to_string())?;
    let s = e.to_mnemonics().to_string(d);
    ensure!(&*s == text, "text of {} in {:?}: '{}', should be '{}'", hex(ent), LANGS[lang], &*s, text);
    let m = Mnemonics::from_string(d, &text).map_err(|e| format!("'{}': {}", text, e))?;
    ensure!(nums(&m) == w, "'{}' read as {:?}", text, nums(&m));
    let back = Entropy::from_mnemonics(&m).map_err(|x| format!("'{}': {}", text, x))?;
    ensure!(back.as_ref() == ent, "'{}' decoded as {}", text, hex(back.as_ref()));
    let ms = MnemonicString::new(d, text.clone()).map_err(|e| format!("'{}': {}", text, e))?;
    ensure!(&*ms == text, "MnemonicString changed '{}'", text);
    cx.steps(4);
    cx.state(hash2(hash(text.as_bytes()), lang as u64));
    cx.outcome(refm::LANG_NAMES[lang]);
    cx.sample(refm::LANG_NAMES[lang], || format!("{} <-> '{}'", hex(ent), text));
    Ok(())
}

/// The entropy whose bits are `bg` but for the 11 bits (or fewer at the end) of word position p.
fn word_at(size: usize, p: usize, v: usize, bg: usize) -> Vec<u8> {
    let mut e: Vec<u8> = (0..size)
        .map(|i| match bg {
            0 => 0,
            1 => 0xff,
            2 => crate::env::stream_byte(77 + size as u64, i as u64),
            _ => crate::env::stream_byte(bg as u64, i as u64),
        })
        .collect();
    for j in 0..11 {
        let b = 11 * p + j;
        if b < size * 8 {
            let bit = (v >> (10 - j) & 1) as u8;
            e[b / 8] = e[b / 8] & !(0x80 >> (b % 8)) | (bit * (0x80 >> (b % 8)));
        }
    }
    e
}
/// Flattened (size, position) pairs of word positions.
fn positions() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for s in SIZES {
        for p in 0..s * 3 / 4 {
            v.push((s, p));
        }
    }
    v
}

pub fn c01(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let pos = positions();
    let np = pos.len() as u64;
    let bgs = if th { 8 } else { 3 };
    let mut d = vec![];
    let pos1 = pos.clone();
    d.push(Domain::new("every word value at every position", np * 2048 * bgs, move |i, cx| {
        let k = digits(i, &[2048, bgs, np]);
        let (s, p) = pos1[k[2]];
        both_ways(&word_at(s, p, k[0], k[1]), cx)?;
        cx.outcome(&format!("{} bytes", s));
        Ok(())
    }));
    // all values of two neighbouring bytes
    let mut pairs = vec![];
    for s in SIZES {
        for p in 0..s - 1 {
            if th || p == 0 || p == s - 2 || p == s / 2 {
                pairs.push((s, p));
            }
        }
    }
    let n = pairs.len() as u64;
    d.push(Domain::new("every value of two neighbouring bytes", n * 65536, move |i, cx| {
        let k = digits(i, &[65536, n]);
        let (s, p) = pairs[k[1]];
        let mut e = vec![0x5a; s];
        e[p] = (k[0] >> 8) as u8;
        e[p + 1] = k[0] as u8;
        both_ways(&e, cx)
    }));
    let tot: u64 = SIZES.iter().map(|s| (s * 8 * (s * 8 - 1) / 2) as u64).sum();
    d.push(Domain::new("all entropies with two set or two clear bits", tot * 2, move |i, cx| {
        let (mut k, bg) = (i / 2, if i % 2 == 0 { 0u8 } else { 0xff });
        for s in SIZES {
            let n = (s * 8) as u64;
            let c = n * (n - 1) / 2;
            if k < c {
                let mut a = 0;
                while k >= n - 1 - a {
                    k -= n - 1 - a;
                    a += 1;
                }
                let b = a + 1 + k;
                let mut e = vec![bg; s];
                e[a as usize / 8] ^= 0x80 >> (a % 8);
                e[b as usize / 8] ^= 0x80 >> (b % 8);
                return both_ways(&e, cx);
            }
            k -= c;
        }
        unreachable!()
    }));
    let reps = if th { 24 } else { 1 };
    d.push(Domain::new("text in every language: all words, every size", 8 * 6 * 2048 * reps, move |i, cx| {
        let k = digits(i, &[2048, 6, 8, reps]);
        let s = SIZES[k[1]];
        let n = s * 3 / 4;
        let mut e = vec![0; s];
        for p in 0..n {
            // a different word in every position, word k[0] in one of them
            let v = (k[0] + ((p + n - (k[0] + k[3]) % n) % n) * 683) % 2048;
            for j in 0..11 {
                let b = 11 * p + j;
                if b < s * 8 {
                    e[b / 8] |= ((v >> (10 - j) & 1) as u8) << (7 - b % 8);
                }
            }
        }
        text_both_ways(&e, k[2], cx)
    }));
    d.push(Domain::new("constant and boundary entropies as text", 8 * 6 * 256, move |i, cx| {
        let k = digits(i, &[256, 6, 8]);
        let s = SIZES[k[1]];
        let mut e = vec![k[0] as u8; s];
        text_both_ways(&e, k[2], cx)?;
        e[s - 1] = !e[s - 1];
        text_both_ways(&e, k[2], cx)?;
        // the values of the public enum, and generation
        let ty = Type::from_word_count(s * 3 / 4).map_err(|e| e.to_string())?;
        let e2 = e.clone();
        let g = Entropy::generate(ty, move |b| b.copy_from_slice(&e2));
        ensure!(g.as_ref() == &e[..], "generate with {} gave {}", hex(&e), hex(g.as_ref()));
        ensure!(g.to_string() == hex(&e), "printed {}", g);
        ensure!(g.checksum() == refm::split_words(&refm::words(&e)).2, "checksum of {}", hex(&e));
        both_ways(&e, cx)
    }));
    let order: Vec<Vec<Vec<u8>>> = (0..6).map(|k| refm::orderly(12 + 4 * k)).collect();
    let no = order.iter().map(|o| o.len()).max().unwrap() as u64;
    d.push(Domain::new("entropies with some order in them", 6 * (no + 65536), move |i, cx| {
        let k = digits(i, &[6, no + 65536]);
        if k[1] < no as usize {
            return order[k[0]].get(k[1]).map(|b| both_ways(b, cx)).unwrap_or(Ok(()));
        }
        let j = k[1] - no as usize;
        both_ways(&[(j >> 8) as u8, j as u8].iter().cycle().take(12 + 4 * k[0]).cloned().collect::<Vec<u8>>(), cx)
    }));
    base(
        "C01",
        "a case is one entropy (and language); it is non-trivial if the words, the text and the decoded entropy are all compared with the model; distinct by entropy and language",
        &format!("6 sizes; 2048 values x 99 word positions x {} backgrounds; two-byte windows; all weight-2 entropies; 8 languages", bgs),
        d,
    )
}

fn decode_as_model(w: &[u16], cx: &mut Cx) -> R {
    let (ent, got, want) = refm::split_words(w);
    let m = mk(w).map_err(|e| format!("{:?}: {}", w, e))?;
    let r = Entropy::from_mnemonics(&m);
    cx.step();
    cx.state(hash(&w.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()));
    match (r, got == want) {
        (Ok(e), true) => {
            ensure!(e.as_ref() == &ent[..], "words {:?} decoded as {}, not {}", w, hex(e.as_ref()), hex(&ent));
            cx.outcome("accepted");
            Ok(())
        }
        (Err(Error::InvalidChecksum(..)), false) => {
            cx.outcome("refused");
            Ok(())
        }
        (Ok(e), false) => Err(format!("words {:?} with checksum {} instead of {} decoded as {}", w, got, want, hex(e.as_ref()))),
        (Err(e), ok) => Err(format!("words {:?} (checksum {}): {:?}", w, if ok { "right" } else { "wrong" }, e)),
    }
}
fn base_words(size: usize, b: usize) -> Vec<u16> {
    let e: Vec<u8> = (0..size)
        .map(|i| match b {
            0 => 0,
            1 => 0xff,
            _ => crate::env::stream_byte(900 + b as u64, i as u64),
        })
        .collect();
    refm::words(&e)
}

pub fn c02(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let bases = if th { 12 } else { 4 };
    let pos = positions();
    let np = pos.len() as u64;
    let mut d = vec![];
    d.push(Domain::new("every word of a valid phrase replaced by every word", np * 2048 * bases, move |i, cx| {
        let k = digits(i, &[2048, bases, np]);
        let (s, p) = pos[k[2]];
        let mut w = base_words(s, k[1]);
        w[p] = k[0] as u16;
        decode_as_model(&w, cx)
    }));
    let nents = if th { 4096 } else { 640 };
    d.push(Domain::new("every checksum value", 6 * nents, move |i, cx| {
        let k = digits(i, &[nents, 6]);
        let s = SIZES[k[1]];
        let mut e = vec![0u8; s];
        if k[0] < 256 {
            e[k[0] / 8 % s] ^= 0x80 >> (k[0] % 8);
        } else if k[0] < 512 {
            e = vec![(k[0] - 256) as u8; s];
        } else {
            e = (0..s).map(|j| crate::env::stream_byte(5000 + k[0] as u64, j as u64)).collect();
        }
        let mut w = refm::words(&e);
        let cs = refm::checksum_bits(&e);
        let last = w.len() - 1;
        let mut ok = 0;
        for c in 0..1u16 << cs {
            w[last] = w[last] >> cs << cs | c;
            decode_as_model(&w, cx)?;
            ok += (refm::split_words(&w).1 == refm::split_words(&w).2) as u32;
        }
        ensure!(ok == 1, "model");
        let en = Entropy::from_slice(&e).map_err(|e| e.to_string())?;
        ensure!(en.checksum() == refm::split_words(&w).2, "checksum() of {}", hex(&e));
        Ok(())
    }));
    d.push(Domain::new("two words of a valid phrase exchanged, rotations, reversals", 6 * bases * 24 * 24, move |i, cx| {
        let k = digits(i, &[24, 24, bases, 6]);
        let s = SIZES[k[3]];
        let n = s * 3 / 4;
        if k[0] >= n || k[1] >= n {
            return Ok(());
        }
        let mut w = base_words(s, k[2] + 2);
        if k[0] == k[1] {
            w.rotate_left(k[0]);
        } else if k[0] < k[1] {
            w.swap(k[0], k[1]);
        } else {
            w[k[1]..=k[0]].reverse();
        }
        decode_as_model(&w, cx)
    }));
    d.push(Domain::new("last word of each text", 8 * 6 * 2048, move |i, cx| {
        let k = digits(i, &[2048, 6, 8]);
        let mut w = base_words(SIZES[k[1]], 3 + k[2]);
        let n = w.len();
        w[n - 1] = k[0] as u16;
        let text = refm::phrase(&w, k[2]);
        let m = Mnemonics::from_string(LANGS[k[2]].to_dict(), &text).map_err(|e| format!("'{}': {}", text, e))?;
        let r = Entropy::from_mnemonics(&m);
        let (e, g, wa) = refm::split_words(&w);
        cx.step();
        cx.state_of(text.as_bytes());
        ensure!(r.is_ok() == (g == wa), "'{}' {}", text, if r.is_ok() { "accepted" } else { "refused" });
        if let Ok(x) = r {
            ensure!(x.as_ref() == &e[..], "'{}' decoded as {}", text, hex(x.as_ref()));
            cx.outcome("accepted");
            cx.sample("accepted", || text.clone());
        } else {
            cx.outcome("refused");
            cx.sample("refused", || text.clone());
        }
        Ok(())
    }));
    if th {
        d.push(Domain::new("last two words of 12: all pairs", 2048 * 2048, move |i, cx| {
            let mut w = base_words(16, 4);
            w[10] = (i / 2048) as u16;
            w[11] = (i % 2048) as u16;
            decode_as_model(&w, cx)
        }));
    }
    base(
        "C02",
        "a case is a sequence of word numbers; accepted or refused as the model says, and if accepted with the model's entropy",
        &format!("{} phrases per size with each word replaced by each of 2048, all checksum values of {} entropies per size, all exchanges", bases, nents),
        d,
    )
}

fn word_answer(lang: usize, s: &str, cx: &mut Cx) -> R {
    let d = LANGS[lang].to_dict();
    let want = refm::word_no(lang, s);
    let r = d.lookup_mnemonic(s);
    cx.step();
    cx.state(hash2(hash(s.as_bytes()), lang as u64));
    match (&r, want) {
        (Ok(m), Some(n)) if m.0 == n => cx.outcome("word"),
        (Err(DictError::MnemonicWordNotFoundInDictionary(e)), None) if e == s => cx.outcome("refused"),
        _ => return Err(format!("{:?}: lookup of '{}' gave {:?}, should be {:?}", LANGS[lang], s, r, want)),
    }
    let r2 = MnemonicIndex::from_word(d, s);
    match (&r2, want) {
        (Ok(m), Some(n)) if m.0 == n => (),
        (Err(Error::LanguageError(DictError::MnemonicWordNotFoundInDictionary(e))), None) if e == s => (),
        _ => return Err(format!("{:?}: from_word of '{}' gave {:?}, should be {:?}", LANGS[lang], s, r2, want)),
    }
    Ok(())
}

pub fn c03(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let dicts = || {
        use bip39::dictionary::*;
        [&ENGLISH, &FRENCH, &JAPANESE, &KOREAN, &CHINESE_SIMPLIFIED, &CHINESE_TRADITIONAL, &ITALIAN, &SPANISH]
    };
    let names = [
        "english", "french", "japanese", "korean", "chinese-simplified", "chinese-traditional", "italian", "spanish",
    ];
    let mut d = vec![];
    d.push(Domain::new("the lists", 8, move |i, cx| {
        let l = i as usize;
        ensure!(refm::list_digest(l) == refm::LIST_DIGESTS[l], "the harness's own list {} is damaged", l);
        let dict = dicts()[l];
        ensure!(dict.name() == names[l] && dict.name == names[l], "list {} is named {}", l, dict.name());
        ensure!(dict.separator() == " ", "separator '{}'", dict.separator());
        ensure!(dict.words.len() == 2048, "length");
        ensure!(LANGS[l].to_dict().name() == names[l], "{:?} uses the list {}", LANGS[l], LANGS[l].to_dict().name());
        ensure!(LANGS[l] as usize == l, "language number");
        cx.state_of(names[l].as_bytes());
        cx.step();
        Ok(())
    }));
    d.push(Domain::new("every number of every list", 8 * 2048, move |i, cx| {
        let (l, n) = (i as usize / 2048, i as usize % 2048);
        let want = refm::lists()[l][n];
        let dict = dicts()[l];
        ensure!(dict.words[n] == want, "{}: word {} is '{}', published '{}'", names[l], n, dict.words[n], want);
        for d in [dict, LANGS[l].to_dict()] {
            let w = d.lookup_word(MnemonicIndex(n as u16));
            ensure!(w.as_ref().ok().map(|s| s.as_str()) == Some(want), "{}: lookup_word({}) is {:?}", names[l], n, w);
            let b = d.lookup_mnemonic(want);
            ensure!(b == Ok(MnemonicIndex(n as u16)), "{}: lookup_mnemonic('{}') is {:?}", names[l], want, b);
            ensure!(MnemonicIndex(n as u16).to_word(d) == want, "{}: to_word({})", names[l], n);
        }
        cx.steps(6);
        word_answer(l, want, cx)?;
        if n == 2047 {
            cx.sample(names[l], || format!("2047 = '{}'", want));
        }
        Ok(())
    }));
    d.push(Domain::new("words that are nearly in a list", 8 * 2048, move |i, cx| {
        let (l, n) = (i as usize / 2048, i as usize % 2048);
        let w = refm::lists()[l][n];
        let cs: Vec<char> = w.chars().collect();
        let mut v: Vec<String> = vec![
            format!(" {}", w),
            format!("{} ", w),
            format!("{}\0", w),
            format!("{}s", w),
            format!("{}{}", w, w),
            w.to_uppercase(),
            cs.iter().rev().collect(),
            format!("{}\n", w),
        ];
        for k in 0..cs.len() {
            // every prefix, every deletion, every exchange, every doubled character, capitals
            v.push(cs[..k].iter().collect());
            v.push(cs[k..].iter().collect());
            let mut x = cs.clone();
            x.remove(k);
            v.push(x.iter().collect());
            if k + 1 < cs.len() {
                let mut x = cs.clone();
                x.swap(k, k + 1);
                v.push(x.iter().collect());
            }
            let mut x = cs.clone();
            x.insert(k, cs[k]);
            v.push(x.iter().collect());
            let mut x: Vec<String> = cs.iter().map(|c| c.to_string()).collect();
            x[k] = x[k].to_uppercase();
            v.push(x.concat());
        }
        for s in v {
            word_answer(l, &s, cx)?;
        }
        // the word in the other languages
        for o in 0..8 {
            if o != l {
                word_answer(o, w, cx)?;
            }
        }
        // composed spellings of the accented lists
        for (a, b) in [("e\u{301}", "\u{e9}"), ("e\u{300}", "\u{e8}"), ("a\u{301}", "\u{e1}"), ("i\u{301}", "\u{ed}"),
            ("o\u{301}", "\u{f3}"), ("u\u{301}", "\u{fa}"), ("n\u{303}", "\u{f1}"), ("e\u{302}", "\u{ea}")] {
            if w.contains(a) {
                word_answer(l, &w.replace(a, b), cx)?;
                word_answer(l, &w.replace(a, &a[..1]), cx)?;
            }
        }
        Ok(())
    }));
    let maxlen = if th { 4 } else { 3 };
    let tot: u64 = (0..=maxlen).map(|k| 26u64.pow(k)).sum();
    d.push(Domain::new("all short strings of letters", tot, move |i, cx| {
        let mut i = i;
        let mut n = 0;
        while i >= 26u64.pow(n) {
            i -= 26u64.pow(n);
            n += 1;
        }
        let s: String = digits(i, &vec![26; n as usize]).iter().map(|k| (b'a' + *k as u8) as char).collect();
        for l in [0usize, 1, 6, 7] {
            word_answer(l, &s, cx)?;
        }
        if n <= 2 {
            for l in 0..8 {
                word_answer(l, &s, cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("all single characters", 0xd800, move |i, cx| {
        if let Some(c) = char::from_u32(i as u32) {
            for l in 0..8 {
                if l == 4 || l == 5 || i < 0x250 || i % 16 == 0 {
                    word_answer(l, &c.to_string(), cx)?;
                }
            }
        }
        Ok(())
    }));
    base(
        "C03",
        "a case is one word number or one string in one language; non-trivial if the answer (number, word or error text) is compared with the published list",
        &format!("8 lists x 2048 words; all neighbours of each word; all strings of up to {} letters; all characters below U+D800", maxlen),
        d,
    )
}

fn sizes_to_try() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70_000).collect();
    for k in 16..64 {
        for d in [9usize, 12, 24, 64, 96, 128, 160, 192, 224, 256, 0, 1] {
            v.push((1usize << k).wrapping_add(d));
        }
        v.push((1usize << k) - 1);
    }
    v.push(usize::MAX);
    v.push(usize::MAX - 63);
    v
}

/// n bytes that look like something; and how many kinds there are.
pub fn looks(n: usize, kind: usize) -> (Vec<u8>, u64) {
    let r: Vec<u8> = (0..n).map(|j| crate::env::stream_byte(4, j as u64)).collect();
    let over = |s: &str| -> Vec<u8> { s.bytes().cycle().take(n).collect() };
    let mut v = match kind {
        0 => r,
        1 => vec![0; n],
        2 => vec![0xff; n],
        // text forms
        3 => hex(&r).into_bytes(),
        4 => hex(&r).to_uppercase().into_bytes(),
        5 => format!("0x{}", hex(&r)).into_bytes(),
        6 => refm::b64(&r).into_bytes(),
        7 => over("0123456789"),
        8 => over("abandon "),
        9 => over(" \t\r\n"),
        10 => over("{\"seed\":[1,2]}"),
        // the length in front, as one byte, two, four
        11 => [vec![n.wrapping_sub(1) as u8], r].concat(),
        12 => [(n.wrapping_sub(2) as u16).to_be_bytes().to_vec(), r].concat(),
        13 => [(n.wrapping_sub(4) as u32).to_le_bytes().to_vec(), r].concat(),
        // the same twice, zeros in front, behind, every other byte
        14 => r.iter().take((n + 1) / 2).cycle().take(n).cloned().collect(),
        15 => r.iter().enumerate().map(|(j, b)| if j < n / 2 { 0 } else { *b }).collect(),
        16 => r.iter().enumerate().map(|(j, b)| if j < n / 2 { *b } else { 0 }).collect(),
        17 => r.iter().enumerate().map(|(j, b)| if j % 2 == 0 { *b } else { 0 }).collect(),
        18 => over("\u{e3}\u{81}\u{82}"),
        _ => over("\u{feff}a"),
    };
    v.truncate(n);
    (v, 20)
}
pub fn c04(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let maxlen = if th { 70_000u64 } else { 2200 };
    let mut d = vec![];
    let sz = sizes_to_try();
    d.push(Domain::new("Type from a number", sz.len() as u64, move |i, cx| {
        let n = sz[i as usize];
        cx.steps(2);
        cx.state(n as u64);
        match Type::from_word_count(n) {
            Ok(t) => {
                ensure!(refm::supported_words(n), "{} words accepted", n);
                ensure!(t.mnemonic_count() == n && t.to_key_size() == n / 3 * 32 && t.checksum_size_bits() == n / 3, "sizes of {}", n);
                ensure!(t.to_string() == n.to_string(), "printed {}", t);
                ensure!(t.to_string().parse::<Type>() == Ok(t), "parsed {}", t);
                cx.outcome("word count accepted");
            }
            Err(e) => {
                ensure!(!refm::supported_words(n) && e == Error::WrongNumberOfWords(n), "{} words: {:?}", n, e);
                cx.outcome("word count refused");
            }
        }
        let ok = n >= 96 && n <= 256 && n % 32 == 0;
        match Type::from_entropy_size(n) {
            Ok(t) => {
                ensure!(ok && t.to_key_size() == n && t.mnemonic_count() == n / 32 * 3, "{} bits accepted as {:?}", n, t);
                cx.outcome("bits accepted");
            }
            Err(e) => ensure!(!ok && e == Error::WrongKeySize(n), "{} bits: {:?}", n, e),
        }
        if n < 2000 {
            let r = n.to_string().parse::<Type>();
            ensure!(r.is_ok() == refm::supported_words(n), "'{}' parsed as {:?}", n, r);
        }
        Ok(())
    }));
    d.push(Domain::new("every length, in contents of many kinds", (maxlen + 1) * looks(0, 0).1, move |i, cx| {
        let k = digits(i, &[looks(0, 0).1, maxlen + 1]);
        let n = k[1];
        let b = looks(n, k[0]).0;
        cx.steps(3);
        cx.state(0x4_0000_0000 + i);
        let eok = n >= 12 && n <= 32 && n % 4 == 0;
        match Entropy::from_slice(&b) {
            Ok(e) => {
                ensure!(eok, "entropy of {} bytes accepted", n);
                ensure!(e.as_ref() == &b[..] && e.get_type().to_key_size() == n * 8, "entropy of {} bytes became {}", n, hex(e.as_ref()));
                ensure!(e.to_mnemonics().as_ref().len() == n * 3 / 4, "words of {} bytes", n);
                cx.outcome("entropy accepted");
            }
            Err(e) => {
                ensure!(!eok && e == Error::WrongKeySize(n * 8), "entropy of {} bytes: {:?}", n, e);
                cx.outcome("entropy refused");
            }
        }
        match Seed::from_slice(&b) {
            Ok(s) => {
                ensure!(n == 64 && s.as_ref() == &b[..], "seed of {} bytes accepted as {}", n, hex(s.as_ref()));
                let mut a = [0; 64];
                a.copy_from_slice(&b);
                ensure!(Seed::from_bytes(a) == s && s.to_string() == hex(&b), "seed");
                cx.outcome("seed accepted");
            }
            Err(e) => ensure!(n != 64 && e == Error::InvalidSeedSize(n), "seed of {} bytes: {:?}", n, e),
        }
        let w: Vec<MnemonicIndex> = (0..n).map(|j| MnemonicIndex((j * [37, 0, 1, 2047, 1024, 3][k[0] % 6] % 2048) as u16)).collect();
        let want = w.clone();
        match Mnemonics::from_mnemonics(w) {
            Ok(m) => {
                ensure!(refm::supported_words(n) && m.as_ref() == &want[..], "{} words accepted", n);
                ensure!(m.get_type().mnemonic_count() == n, "type of {} words", n);
                cx.outcome("words accepted");
            }
            Err(e) => ensure!(!refm::supported_words(n) && e == Error::WrongNumberOfWords(n), "{} words: {:?}", n, e),
        }
        if n <= 300 && k[0] < 3 {
            let text = vec![["abandon", "zoo", "art"][k[0]]; n].join(" ");
            let dict = &bip39::dictionary::ENGLISH;
            match Mnemonics::from_string(dict, &text) {
                Ok(_) => ensure!(refm::supported_words(n), "text of {} words accepted", n),
                Err(e) => {
                    ensure!(!refm::supported_words(n), "text of {} words refused", n);
                    let want = if n == 0 { Error::LanguageError(DictError::MnemonicWordNotFoundInDictionary("".into())) } else { Error::WrongNumberOfWords(n) };
                    ensure!(e == want, "text of {} words: {:?}", n, e);
                }
            }
            ensure!(MnemonicString::new(dict, text).is_ok() == refm::supported_words(n), "MnemonicString of {} words", n);
            cx.steps(2);
        }
        Ok(())
    }));
    d.push(Domain::new("every 16-bit word number", 65536, move |i, cx| {
        let n = i as u16;
        cx.step();
        cx.state(0x8_0000_0000 + i);
        match MnemonicIndex::new(n) {
            Ok(m) => {
                ensure!(n < 2048 && m.0 == n, "word number {} accepted as {}", n, m.0);
                cx.outcome("number accepted");
            }
            Err(e) => {
                ensure!(n >= 2048 && e == Error::MnemonicOutOfBound(n), "word number {}: {:?}", n, e);
                cx.outcome("number refused");
            }
        }
        for l in 0..8 {
            let r = LANGS[l].to_dict().lookup_word(MnemonicIndex(n));
            cx.step();
            match r {
                Ok(w) => ensure!(n < 2048 && w == refm::lists()[l][n as usize], "{:?}: word {} is '{}'", LANGS[l], n, w),
                Err(DictError::MnemonicWordNotFoundInDictionary(s)) => {
                    ensure!(n >= 2048 && s.contains(&n.to_string()), "{:?}: word {} refused as '{}'", LANGS[l], n, s)
                }
            }
        }
        Ok(())
    }));
    d.push(Domain::new("generation", 6 * 256, move |i, cx| {
        let k = digits(i, &[256, 6]);
        let n = SIZES[k[1]];
        let ty = Type::from_entropy_size(n * 8).map_err(|e| e.to_string())?;
        let asked = std::cell::Cell::new(0);
        let g = Entropy::generate(ty, |b| {
            asked.set(b.len());
            for (j, x) in b.iter_mut().enumerate() {
                *x = (k[0] + j) as u8;
            }
        });
        cx.step();
        cx.state(0x10_0000_0000 + i);
        ensure!(asked.get() == n && g.len() == n, "{} bytes asked for {:?}", asked.get(), ty);
        ensure!(g.iter().enumerate().all(|(j, x)| *x == (k[0] + j) as u8), "generated {}", hex(g.as_ref()));
        ensure!(g.get_type() == ty, "type {:?}", g.get_type());
        Ok(())
    }));
    base(
        "C04",
        "a case is one size or number given to every constructor that takes it; accepted or refused with the refused value, as the standard says",
        &format!("numbers 0..70000 and around all powers of two; all lengths 0..{}, in contents of 20 kinds (random, constant, text forms of other encodings, a length in front, repeated, half empty); all 65536 word numbers in 8 lists", maxlen),
        d,
    )
}

fn seed_case(lang: usize, ent: &[u8], pass: &[u8], own: bool, cx: &mut Cx) -> R {
    let d = LANGS[lang].to_dict();
    let text = refm::phrase(&refm::words(ent), lang);
    let m = MnemonicString::new(d, text.clone()).map_err(|e| format!("'{}': {}", text, e))?;
    let s = Seed::from_mnemonic_string(&m, pass);
    let mut salt = b"mnemonic".to_vec();
    salt.extend_from_slice(pass);
    let want = if own { refm::pbkdf2_own(text.as_bytes(), &salt, 2048).to_vec() } else { refm::seed_of(&text, pass) };
    cx.step();
    cx.state(hash2(hash(text.as_bytes()), hash(pass)));
    ensure!(s.as_ref() == &want[..], "seed of '{}' with passphrase {}: {}, should be {}", text, hex(pass), hex(s.as_ref()), hex(&want));
    ensure!(s.len() == 64, "length");
    // the same from the words
    let e = Entropy::from_slice(ent).map_err(|e| e.to_string())?;
    let s2 = Seed::from_mnemonic_string(&e.to_mnemonics().to_string(d), pass);
    cx.step();
    ensure!(s2 == s && s2.as_ref() == s.as_ref(), "two seeds for '{}'", text);
    cx.outcome(refm::LANG_NAMES[lang]);
    cx.sample(refm::LANG_NAMES[lang], || format!("'{}' + {} bytes -> {}", text, pass.len(), hex(&want[..8])));
    Ok(())
}
/// A dictionary that has every word.
struct Any;
impl bip39::dictionary::Language for Any {
    fn name(&self) -> &'static str {
        "any"
    }
    fn separator(&self) -> &'static str {
        " "
    }
    fn lookup_mnemonic(&self, _: &str) -> Result<bip39::MnemonicIndex, bip39::dictionary::Error> {
        bip39::MnemonicIndex::new(0).map_err(|_| bip39::dictionary::Error::MnemonicWordNotFoundInDictionary(String::new()))
    }
    fn lookup_word(&self, _: bip39::MnemonicIndex) -> Result<String, bip39::dictionary::Error> {
        Ok("a".into())
    }
}
fn ent_n(size: usize, k: usize) -> Vec<u8> {
    match k {
        0 => vec![0; size],
        1 => vec![0xff; size],
        k => (0..size).map(|i| crate::env::stream_byte(40 + k as u64, i as u64)).collect(),
    }
}

pub fn c05(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    d.push(Domain::new("published vectors", 4, |i, cx| {
        let v = [
            ("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e53495531f09a6987599d18264c1e1c92f2cf141630c7a3c4ab7c81b2f001698e7463b04"),
            ("legal winner thank year wave sausage worth useful legal winner thank yellow", "2e8905819b8723fe2c1d161860e5ee1830318dbf49a83bd451cfb8440c28bd6fa457fe1296106559a3c80937a1c1069be3a3a5bd381ee6260e8d9739fce1f607"),
            ("letter advice cage absurd amount doctor acoustic avoid letter advice cage above", "d71de856f81a8acc65e6fc851a38d4d7ec216fd0796d0a6827a3ad6ed5511a30fa280f12eb2e47ed2ac03b5c462a0358d18d69fe4f985ec81778c1b370b652a8"),
            ("zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo zoo wrong", "ac27495480225222079d7be181583751e86f571027b0497b5b5d11218e0a8a13332572917f0f8e5a589620c6f15b11c61dee327651a14c34e18231052e48c069"),
        ][i as usize];
        let m = MnemonicString::new(&bip39::dictionary::ENGLISH, v.0.into()).map_err(|e| e.to_string())?;
        let s = Seed::from_mnemonic_string(&m, b"TREZOR");
        cx.step();
        cx.state(i);
        ensure!(hex(s.as_ref()) == v.1, "seed of '{}': {}", v.0, hex(s.as_ref()));
        ensure!(hex(&refm::pbkdf2_own(v.0.as_bytes(), b"mnemonicTREZOR", 2048)) == v.1, "the harness's own PBKDF2");
        Ok(())
    }));
    let ents = if th { 10 } else { 3 };
    let passes: Vec<Vec<u8>> = vec![b"".to_vec(), b"TREZOR".to_vec(), vec![0xff; 130], "p\u{e4}ss \u{1f511}".into()];
    let np = passes.len() as u64;
    d.push(Domain::new("languages, sizes, entropies, passphrases", 8 * 6 * ents * np, move |i, cx| {
        let k = digits(i, &[np, ents, 6, 8]);
        seed_case(k[3], &ent_n(SIZES[k[2]], k[1]), &passes[k[0]], true, cx)
    }));
    d.push(Domain::new("passphrase lengths", 2 * 1101, move |i, cx| {
        let n = i as usize / 2;
        let p: Vec<u8> = (0..n).map(|j| b'a' + (j % 26) as u8).collect();
        seed_case(if i % 2 == 0 { 0 } else { 2 }, &ent_n(16, 2), &p, true, cx)
    }));
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("long passphrases", nbig * 2 * 2, move |i, cx| {
        let k = digits(i, &[2, 2, nbig]);
        let mut p = bytes_n(big_sizes()[k[2]], 2);
        if k[1] == 1 {
            *p.last_mut().unwrap() ^= 1;
        }
        seed_case([0, 2][k[0]], &ent_n([16, 32][k[0]], 2), &p, true, cx)
    }));
    d.push(Domain::new("passphrase bytes", 256 * 3, move |i, cx| {
        let b = (i / 3) as u8;
        let p = match i % 3 {
            0 => vec![b],
            1 => vec![b'x', b, b'y'],
            _ => vec![b, b],
        };
        seed_case(0, &ent_n(16, 3), &p, i % 3 == 1, cx)
    }));
    // phrases of every byte length that occurs
    d.push(Domain::new("every word of every list in a phrase", 8 * 2048, move |i, cx| {
        let (l, v) = (i as usize / 2048, i as usize % 2048);
        let s = SIZES[(v + l) % 6];
        seed_case(l, &word_at(s, v % (s * 3 / 4 - 1), v, 2), b"", i % 16 == 0, cx)
    }));
    // the longest phrases a list can make, and phrases of every byte length
    let ll: u64 = if th { 400 } else { 40 };
    d.push(Domain::new("the longest and shortest phrases of every list", 8 * 6 * 2 * ll, move |i, cx| {
        let k = digits(i, &[2, ll, 6, 8]);
        let mut ws: Vec<u16> = (0..2048).collect();
        let list = &refm::lists()[k[3]];
        ws.sort_by_key(|w| (list[*w as usize].len(), *w));
        if k[0] == 0 {
            ws.reverse();
        }
        // the k-th longest words by turns, in one place another one
        let n = SIZES[k[2]] / 4 * 3;
        let mut w: Vec<u16> = (0..n).map(|j| ws[j % (1 + k[1] % 5)]).collect();
        w[(k[1] / 2) % n] = ws[k[1]];
        let (ent, _, _) = refm::split_words(&w);
        seed_case(k[3], &ent, [&b""[..], b"TREZOR"][k[1] % 2], k[1] % 8 == 0, cx)
    }));
    let tl: u64 = if th { 6000 } else { 2200 };
    d.push(Domain::new("texts of every length in a dictionary of one's own", tl * 4 + nbig * 2, move |i, cx| {
        let (n, k) = if i < tl * 4 { (i as usize / 4, i as usize % 4) } else { (big_sizes()[(i - tl * 4) as usize / 2], 4 + i as usize % 2) };
        let count = SIZES[(i / 3) as usize % 6] / 4 * 3;
        if n < 2 * count {
            return Ok(());
        }
        // words of that many letters and separators, filled up
        let unit = ["a", "\u{e9}", "\u{3042}", "\u{1d11e}", "b", "\u{ac00}"][k];
        let each = (n + 1 - count) / count;
        let mut ws: Vec<String> = (0..count).map(|_| unit.repeat(each / unit.len())).collect();
        let have = ws.iter().map(|w| w.len()).sum::<usize>() + count - 1;
        ws[i as usize % count] += &"abcdefghijklmnopqrstuvwxyz".repeat(4)[..n - have];
        let text = ws.join(" ");
        assert!(text.len() == n);
        let m = MnemonicString::new(&Any, text.clone()).map_err(|e| format!("a text of {} bytes: {}", n, e))?;
        let s = Seed::from_mnemonic_string(&m, b"p");
        cx.step();
        cx.state(hash(text.as_bytes()));
        let want = if n % 16 == 0 && n < 9000 { refm::pbkdf2_own(text.as_bytes(), b"mnemonicp", 2048).to_vec() } else { refm::seed_of(&text, b"p") };
        ensure!(s.as_ref() == &want[..], "seed of a text of {} words, {} bytes: {}, should be {}", count, n, hex(s.as_ref()), hex(&want));
        cx.outcome("a text");
        Ok(())
    }));
    // histories: what was computed before does not matter
    let n = if th { 4 } else { 3 };
    d.push(Domain::new("sequences of computations", 6u64.pow(n), move |i, cx| {
        let alphabet: [(usize, usize, &[u8]); 6] =
            [(0, 2, b""), (0, 2, b"a"), (0, 2, b"ab"), (0, 3, b""), (2, 2, b""), (2, 2, b"a")];
        for k in digits(i, &vec![6; n as usize]) {
            let (l, e, p) = alphabet[k];
            seed_case(l, &ent_n(16, e), p, false, cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("passphrases that look like something", 20 * 140, |i, cx| {
        let k = digits(i, &[20, 140]);
        seed_case(k[1] % 8, &ent_n(SIZES[k[1] % 6], 2), &looks(k[1], k[0]).0, true, cx)
    }));
    let order: Vec<Vec<Vec<u8>>> = (0..6).map(|k| refm::orderly(12 + 4 * k)).collect();
    let no = order.iter().map(|o| o.len()).max().unwrap() as u64;
    d.push(Domain::new("phrases of entropy with some order in it", 6 * no, move |i, cx| {
        let k = digits(i, &[6, no]);
        match order[k[0]].get(k[1]) {
            Some(b) => seed_case(k[1] % 8, b, [&b""[..], b"p"][k[1] / 8 % 2], true, cx),
            None => Ok(()),
        }
    }));
    base(
        "C05",
        "a case is a phrase, language and passphrase; the 64 bytes are compared with PBKDF2 computed by the harness (own SHA-512, or the library's where noted as not own)",
        &format!("8 languages x 6 sizes x {} entropies x 4 passphrases; all passphrase lengths 0..1100 and around powers of two to 2^20; every byte value; every word of every list; the longest and shortest phrases; texts of every byte length to the bound in a dictionary of one's own; sequences of {}", ents, n),
        d,
    )
}

fn hex_model(s: &str) -> Result<(Vec<u8>, bool), usize> {
    let mut o = vec![];
    let mut half = None;
    for (i, c) in s.bytes().enumerate() {
        let v = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            b' ' | b'\n' | b'\r' | b'\t' => continue,
            _ => return Err(i),
        };
        half = match half {
            None => Some(v),
            Some(h) => {
                o.push(h << 4 | v);
                None
            }
        };
    }
    Ok((o, half.is_some()))
}
fn hex_case(s: &str, cx: &mut Cx) -> R {
    use bip39::util::hex::{decode, Error};
    let r = decode(s);
    cx.step();
    cx.state_of(s.as_bytes());
    match (hex_model(s), r) {
        (Ok((_, true)), _) => cx.outcome("odd number of digits (not decided)"),
        (Ok((b, false)), Ok(g)) => {
            ensure!(b == g, "'{}' decoded as {:?}", s, g);
            cx.outcome("decoded");
        }
        (Err(i), Err(Error::UnknownSymbol(k))) => {
            ensure!(i == k, "'{}': first wrong character at {}, reported at {}", s, i, k);
            cx.outcome("refused");
        }
        (m, r) => return Err(format!("'{}' ({:?}): {:?}, should be {:?}", s, s.as_bytes(), r, m)),
    }
    Ok(())
}
fn pack(v: &[u16]) -> Vec<u8> {
    let n = v.len() * 11;
    let mut o = vec![0u8; (n + 7) / 8];
    for i in 0..n {
        o[i / 8] |= ((v[i / 11] >> (10 - i % 11) & 1) as u8) << (7 - i % 8);
    }
    o
}
fn pack_case(v: &[u16], cx: &mut Cx) -> R {
    let mut w = BitWriterBy11::new();
    for x in v {
        w.write(*x);
    }
    let b = w.to_bytes();
    let want = pack(v);
    cx.steps(2);
    cx.state_of(&want);
    ensure!(b == want, "{:?} packed as {}, should be {}", v, hex(&b), hex(&want));
    read_case(&b, Some(v), cx)
}
fn read_case(b: &[u8], v: Option<&[u16]>, cx: &mut Cx) -> R {
    let mut r = BitReaderBy11::new(b);
    let n = b.len() * 8 / 11;
    if let Some(v) = v {
        ensure!(n == v.len(), "model");
    }
    for k in 0..=n {
        ensure!(r.size() == n - k, "{}: {} whole numbers left after {}, reported {}", hex(b), n - k, k, r.size());
        if k < n {
            let want = (0..11).fold(0u16, |a, j| {
                let i = 11 * k + j;
                a << 1 | (b[i / 8] >> (7 - i % 8) & 1) as u16
            });
            let x = r.read();
            ensure!(x == want, "{}: number {} read as {}, is {}", hex(b), k, x, want);
            if let Some(v) = v {
                ensure!(x == v[k], "{:?} read back as {} at {}", v, x, k);
            }
        }
    }
    cx.steps(n as u64);
    Ok(())
}

pub fn c06(t: Tier) -> Check {
    let th = t == Tier::Thorough;
    let mut d = vec![];
    let nbig = big_sizes().len() as u64;
    d.push(Domain::new("all bytes strings of up to two bytes", 1 + 256 + 65536, |i, cx| {
        let b = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        let s = bip39::util::hex::encode(&b);
        ensure!(s == hex(&b), "{:?} encoded as '{}'", b, s);
        hex_case(&s, cx)?;
        hex_case(&s.to_uppercase(), cx)?;
        if s.len() == 4 {
            for p in [format!("{} {}", &s[..2], &s[2..]), format!("{}\r\n{}", &s[..1], &s[1..]), format!(" {}\t", s)] {
                hex_case(&p, cx)?;
            }
        }
        Ok(())
    }));
    d.push(Domain::new("every length", 1025, |i, cx| {
        for seed in 0..4u64 {
            let b: Vec<u8> = (0..i)
                .map(|j| match seed {
                    0 => 0,
                    1 => 0xff,
                    s => crate::env::stream_byte(s, j),
                })
                .collect();
            let s = bip39::util::hex::encode(&b);
            ensure!(s == hex(&b), "{} bytes encoded as '{}'", i, s);
            hex_case(&s, cx)?;
            hex_case(&s.to_uppercase(), cx)?;
            let spaced: Vec<String> = b.iter().map(|x| format!("{:02X}", x)).collect();
            hex_case(&spaced.join(" "), cx)?;
            hex_case(&spaced.join("\n"), cx)?;
        }
        Ok(())
    }));
    d.push(Domain::new("long texts", nbig * 4, move |i, cx| {
        let k = digits(i, &[4, nbig]);
        let n = big_sizes()[k[1]];
        let b = bytes_n(n, k[0]);
        let s = bip39::util::hex::encode(&b);
        ensure!(s == hex(&b), "{} bytes encoded wrongly", n);
        hex_case(&s, cx)?;
        for p in [0, 1, n, 2 * n - 2, 2 * n - 1] {
            let mut t = s.clone();
            t.replace_range(p..p + 1, ["g", "\0", "\u{e9}", " "][k[0]]);
            hex_case(&t, cx)?;
        }
        hex_case(&format!("{}{}{}", &s[..n / 2 * 2], " \n".repeat(n), &s[n / 2 * 2..]), cx)
    }));
    // blanks in every gap of six digits
    d.push(Domain::new("blanks in every gap", 5u64.pow(7), |i, cx| {
        let k = digits(i, &[5; 7]);
        let gap = ["", " ", "\n", "\t", "\r"];
        let dg = ["1", "a", "B", "0", "f", "9"];
        let mut s = String::new();
        for j in 0..7 {
            s += gap[k[j]];
            if j < 6 {
                s += dg[j];
            }
        }
        hex_case(&s, cx)
    }));
    d.push(Domain::new("blanks in runs of every length", (700 + nbig) * 5 * 4, move |i, cx| {
        let k = digits(i, &[4, 5, 700 + nbig]);
        let n = if k[2] < 700 { k[2] } else { big_sizes()[k[2] - 700] };
        let run: String = [" ", "\t", "\r\n", "\n \r\t "][k[0]].chars().cycle().take(n).collect();
        let mut s = "c0Ff".to_string();
        s.insert_str(k[1], &run);
        hex_case(&s, cx)?;
        // and another of the same length
        s.push_str("b");
        s.push_str(&run);
        s.push_str("2");
        hex_case(&s, cx)?;
        s.push('x');
        hex_case(&s, cx)
    }));
    d.push(Domain::new("letter case of every digit", 256 * 4, |i, cx| {
        let base: Vec<char> = ["abcdefab", "fedcbafe", "a1b2c3d4", "0a0b0c0d"][i as usize / 256].chars().collect();
        let s: String = base.iter().enumerate().map(|(j, c)| if i >> j & 1 == 1 { c.to_ascii_uppercase() } else { *c }).collect();
        hex_case(&s, cx)
    }));
    // a wrong character (every ASCII one and some others) at every position
    d.push(Domain::new("wrong characters", 0x300 * 13, |i, cx| {
        let k = digits(i, &[13, 0x300]);
        let c = match char::from_u32(k[1] as u32) {
            Some(c) => c,
            None => return Ok(()),
        };
        for base in ["0123456789ab", "01 23\n45\t678", "            "] {
            let mut s = base.to_string();
            s.insert(k[0], c);
            hex_case(&s, cx)?;
            s.push('g');
            hex_case(&s, cx)?;
            s.insert(0, '\u{ff10}');
            hex_case(&s, cx)?;
        }
        Ok(())
    }));
    let bg = if th { 8 } else { 3 };
    d.push(Domain::new("11-bit numbers: every value at every position", 17 * 2048 * bg, move |i, cx| {
        let k = digits(i, &[2048, bg, 17]);
        let n = k[2] + 1 + k[1];
        let v: Vec<u16> = (0..n)
            .map(|j| {
                if j == k[2] {
                    k[0] as u16
                } else {
                    match k[1] {
                        0 => 0,
                        1 => 0x7ff,
                        s => (crate::env::stream_byte(s as u64, 2 * j as u64) as u16) << 3 | (crate::env::stream_byte(9, j as u64) & 7) as u16,
                    }
                }
            })
            .collect();
        pack_case(&v, cx)
    }));
    d.push(Domain::new("11-bit numbers: neighbouring pairs", 8 * 2048 * if th { 2048 } else { 24 }, move |i, cx| {
        let r = if th { 2048 } else { 24 };
        let k = digits(i, &[2048, r, 8]);
        let y = if th { k[1] as u16 } else if k[1] < 11 { 1 << k[1] } else if k[1] < 22 { 0x7ff ^ 1 << (k[1] - 11) } else { [0x555, 0x2aa][k[1] - 22] };
        let mut v = vec![0x3a5u16; k[2]];
        v.push(k[0] as u16);
        v.push(y);
        pack_case(&v, cx)
    }));
    d.push(Domain::new("11-bit numbers: every number of them", 2 * 400, |i, cx| {
        let n = i as usize / 2;
        let v: Vec<u16> = (0..n).map(|j| ((j * 1021 + i as usize) % 2048) as u16).collect();
        pack_case(&v, cx)
    }));
    d.push(Domain::new("11-bit numbers: very many of them", nbig, move |i, cx| {
        let n = big_sizes()[i as usize];
        let v: Vec<u16> = (0..n).map(|j| ((j * 1021 + i as usize) % 2048) as u16).collect();
        pack_case(&v, cx)
    }));
    d.push(Domain::new("reading buffers of every length", 300 * 4, |i, cx| {
        let b: Vec<u8> = (0..i / 4)
            .map(|j| match i % 4 {
                0 => 0,
                1 => 0xff,
                s => crate::env::stream_byte(s, j),
            })
            .collect();
        cx.state_of(&b);
        read_case(&b, None, cx)
    }));
    base(
        "C06",
        "a case is one text or one sequence of numbers; the answer (bytes, position of the wrong character, packed bytes, numbers, numbers left) is compared with the model",
        "all byte strings up to 2 bytes; all lengths 0..1024; blanks in all gaps and in runs of every length to 699 and around powers of two to 1,000,000; wrong characters at all positions; 2048 values at all alignments",
        d,
    )
}
