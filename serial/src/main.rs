//! C37: values written with the optional serialization come back equal, in the form they always had, and the
//! feature changes nothing else.  Prints one JSON object.  Usage: serial <quick|thorough> [case]
use bip39::dictionary::{self, DefaultDictionary, Language};
use bip39::util::hex;
use bip39::{Entropy, MnemonicIndex, MnemonicString, Mnemonics, Seed, Type};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
struct Out {
    only: Option<String>,
    cases: u64,
    steps: u64,
    states: HashSet<u64>,
    per: BTreeMap<String, u64>,
    bad: Vec<(String, String)>,
    /// what the operations outside serialization answered, by section
    rest: BTreeMap<String, u64>,
}
fn fnv(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(h, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}
impl Out {
    #[allow(dead_code)]
    fn case(&mut self, domain: &str, name: impl Fn() -> String, f: impl FnOnce(&mut Out) -> Result<(), String>) {
        if self.bad.len() > 20 {
            return;
        }
        if let Some(o) = &self.only {
            if *o != format!("{}: {}", domain, name()) {
                return;
            }
        }
        self.cases += 1;
        match self.per.get_mut(domain) {
            Some(n) => *n += 1,
            None => {
                self.per.insert(domain.into(), 1);
            }
        }
        let r = catch_unwind(AssertUnwindSafe(|| f(self))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panic: {}", m.unwrap_or_default()))
        });
        if let Err(e) = r {
            self.bad.push((format!("{}: {}", domain, name()), e));
        }
    }
    fn said(&mut self, section: &str, what: &str) {
        let h = self.rest.entry(section.into()).or_insert(0xcbf29ce484222325);
        *h = fnv(fnv(*h, what.as_bytes()), b"\n");
        self.steps += 1;
    }
}

const TYPES: [Type; 6] = [Type::Type9Words, Type::Type12Words, Type::Type15Words, Type::Type18Words, Type::Type21Words, Type::Type24Words];
const DICTS: [&DefaultDictionary; 8] = [
    &dictionary::ENGLISH,
    &dictionary::FRENCH,
    &dictionary::JAPANESE,
    &dictionary::KOREAN,
    &dictionary::CHINESE_SIMPLIFIED,
    &dictionary::CHINESE_TRADITIONAL,
    &dictionary::ITALIAN,
    &dictionary::SPANISH,
];
/// Word lists in which any text is a word: its number is that of the list's first word.
struct Free(&'static str, String);
impl Language for Free {
    fn name(&self) -> &'static str {
        "free"
    }
    fn separator(&self) -> &'static str {
        self.0
    }
    fn lookup_mnemonic(&self, _: &str) -> Result<MnemonicIndex, dictionary::Error> {
        Ok(MnemonicIndex(0))
    }
    fn lookup_word(&self, _: MnemonicIndex) -> Result<String, dictionary::Error> {
        Ok(self.1.clone())
    }
}
fn entropies(len: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0; len], vec![0xff; len], (0..len).map(|i| i as u8 * 37 + 5).collect()];
    for i in 0..len * 8 {
        let mut e = vec![0; len];
        e[i / 8] = 0x80 >> (i % 8);
        v.push(e);
    }
    v
}
fn numbers() -> Vec<usize> {
    let mut v: Vec<usize> = (0..70000).collect();
    for b in 16..64 {
        for d in [-1i64, 0, 1] {
            v.push((1usize << b).wrapping_add(d as usize));
        }
    }
    v.extend([usize::MAX, usize::MAX - 1, 10usize.pow(19), 9007199254740993]);
    v
}

#[cfg(feature = "on")]
mod on {
    use super::*;
    use serde::{de::DeserializeOwned, Serialize};
    use serde_json::{json, Value};
    use std::fmt::Debug;

    /// Through every format; `want` is how it was always written.
    fn trip<T: Serialize + DeserializeOwned + PartialEq + Debug + Clone>(v: &T, want: &str, wide: bool, o: &mut Out) -> Result<(), String> {
        let e = |e: &dyn std::fmt::Display| format!("{:?}: {}", v, e);
        let text = serde_json::to_string(v).map_err(|x| e(&x))?;
        if text != want {
            return Err(format!("{:?} is written as {}, always was {}", v, text, want));
        }
        let back = |name: &str, got: Result<T, String>| match got {
            Ok(g) if g == *v && *v == g => Ok(()),
            Ok(g) => Err(format!("{:?} comes back from {} as {:?}", v, name, g)),
            Err(x) => Err(format!("{:?} does not come back from {} ({}): {}", v, name, text, x)),
        };
        back("JSON", serde_json::from_str(&text).map_err(|e| e.to_string()))?;
        o.states.insert(fnv(0xcbf29ce484222325, text.as_bytes()));
        o.steps += 1;
        if !wide {
            return Ok(());
        }
        back("JSON bytes", serde_json::from_slice(text.as_bytes()).map_err(|e| e.to_string()))?;
        back("a JSON reader", serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string()))?;
        let pretty = serde_json::to_string_pretty(v).map_err(|x| e(&x))?;
        back("spaced JSON", serde_json::from_str(&pretty).map_err(|e| e.to_string()))?;
        let value = serde_json::to_value(v).map_err(|x| e(&x))?;
        back("a JSON value", serde_json::from_value(value).map_err(|e| e.to_string()))?;
        let bin = bincode::serialize(v).map_err(|x| e(&x))?;
        back("binary", bincode::deserialize(&bin).map_err(|e| e.to_string()))?;
        // in company
        let many = (vec![v.clone(), v.clone()], Some(v.clone()), 7u8);
        let bin = bincode::serialize(&many).map_err(|x| e(&x))?;
        let got: (Vec<T>, Option<T>, u8) = bincode::deserialize(&bin).map_err(|x| e(&x))?;
        if got != many {
            return Err(format!("{:?} in a tuple comes back as {:?}", many, got));
        }
        let text = serde_json::to_string(&many).map_err(|x| e(&x))?;
        let got: (Vec<T>, Option<T>, u8) = serde_json::from_str(&text).map_err(|x| e(&x))?;
        if got != many {
            return Err(format!("{:?} in a tuple comes back as {:?}", many, got));
        }
        o.steps += 7;
        Ok(())
    }
    fn binary<T: Serialize + Debug>(v: &T, want: Vec<u8>) -> Result<(), String> {
        match bincode::serialize(v) {
            Ok(b) if b == want => Ok(()),
            b => Err(format!("{:?} is written as {:?}, always was {:?}", v, b, want)),
        }
    }
    fn refused<T: DeserializeOwned + Debug>(v: &Value) -> Result<(), String> {
        match serde_json::from_value::<T>(v.clone()) {
            Err(_) => Ok(()),
            Ok(t) => Err(format!("{} is read as {:?}", v, t)),
        }
    }
    fn phrase_text(s: &str) -> String {
        serde_json::to_string(s).unwrap()
    }

    pub fn run(o: &mut Out, thorough: bool) {
        for (i, t) in TYPES.iter().enumerate() {
            let names = ["Type9Words", "Type12Words", "Type15Words", "Type18Words", "Type21Words", "Type24Words"];
            o.case("phrase kinds", || names[i].into(), |o| {
                trip(t, &format!("\"{}\"", names[i]), true, o)?;
                binary(t, (i as u32).to_le_bytes().to_vec())
            });
        }
        // no other text is a kind
        let mut other: Vec<String> = (0..1000).map(|n| format!("Type{}Words", n)).collect();
        other.extend((0..300).map(|n| n.to_string()));
        for w in ["", "type12words", "TYPE12WORDS", "Type12Word", "Type12Words ", " Type12Words", "Type012Words", "Type12words", "Type 12 Words", "12 words", "Twelve", "null", "default"] {
            other.push(w.into());
        }
        for w in other {
            if TYPES.iter().any(|t| format!("{:?}", t) == w) {
                continue;
            }
            o.case("texts that are no phrase kind", || w.clone(), |o| {
                o.steps += 1;
                refused::<Type>(&json!(w))
            });
        }
        for n in 6..3000u32 {
            o.case("numbers that are no phrase kind", || n.to_string(), |o| {
                o.steps += 1;
                match bincode::deserialize::<Type>(&n.to_le_bytes()) {
                    Err(_) => Ok(()),
                    Ok(t) => Err(format!("{} is read as {:?}", n, t)),
                }
            });
        }
        for (l, d) in DICTS.iter().enumerate() {
            for (k, t) in TYPES.iter().enumerate() {
                for (j, e) in entropies(t.to_key_size() / 8).iter().enumerate() {
                    if !thorough && j >= 3 && (j + l + k) % 4 != 0 {
                        continue;
                    }
                    o.case("phrases", || format!("{} {} {}", d.name, t, j), |o| {
                        let m = Entropy::from_slice(e).unwrap().to_mnemonics().to_string(*d);
                        let want = phrase_text(&m);
                        trip(&m, &want, true, o)?;
                        binary(&m, bincode::serialize(&*m as &str).unwrap())?;
                        let back: MnemonicString = serde_json::from_str(&want).map_err(|e| e.to_string())?;
                        if *back != *m || Mnemonics::from_string(*d, &back).ok() != Mnemonics::from_string(*d, &m).ok() {
                            return Err(format!("{} comes back as {}", m, back));
                        }
                        if j < 3 && Seed::from_mnemonic_string(&back, b"pw") != Seed::from_mnemonic_string(&m, b"pw") {
                            return Err(format!("{}: another seed", m));
                        }
                        Ok(())
                    });
                }
            }
        }
        // every word alone in a phrase
        for (l, d) in DICTS.iter().enumerate() {
            for w in 0..2048u16 {
                if !thorough && (w as usize + l) % 2 == 1 {
                    continue;
                }
                o.case("every word", || format!("{} {}", d.name, w), |o| {
                    let m = Mnemonics::from_mnemonics(vec![MnemonicIndex(w); 9]).unwrap().to_string(*d);
                    trip(&m, &phrase_text(&m), false, o)
                });
            }
        }
        // every character in a word of the user's own list
        for c in (0..0x110000u32).filter_map(char::from_u32) {
            let wide = (c as u32) < 0x3100 && (thorough || (c as u32) < 0x300);
            o.case("every character", || format!("{:x}", c as u32), |o| {
                let mut s = String::new();
                for i in 0..9 {
                    if i > 0 {
                        s.push('/');
                    }
                    s.push('a');
                    s.push(if c == '/' { '|' } else { c });
                }
                let m = MnemonicString::new(&Free("/", String::new()), s.clone()).map_err(|e| e.to_string())?;
                if *m != s[..] {
                    return Err(format!("{:?} is kept as {:?}", s, m));
                }
                trip(&m, &phrase_text(&s), wide, o)?;
                let e = dictionary::Error::MnemonicWordNotFoundInDictionary(c.to_string());
                trip(&e, &format!("{{\"MnemonicWordNotFoundInDictionary\":{}}}", phrase_text(&c.to_string())), wide, o)
            });
        }
        // texts of every length
        for n in 0..(if thorough { 5000usize } else { 1500 }) {
            o.case("texts of every length", || n.to_string(), |o| {
                let s: String = (0..n).map(|i| ['a', 'é', ' ', '"', '\\', '語', '\u{1f600}', '\n'][(i * 5 + n) % 8]).collect();
                let e = dictionary::Error::MnemonicWordNotFoundInDictionary(s.clone());
                trip(&e, &format!("{{\"MnemonicWordNotFoundInDictionary\":{}}}", phrase_text(&s)), n % 16 == 0, o)?;
                let p: Vec<String> = (0..12).map(|i| s.chars().filter(|c| *c != ' ').take(n + i).collect()).collect();
                let p = p.join(" ");
                let m = MnemonicString::new(&Free(" ", String::new()), p.clone()).map_err(|e| e.to_string())?;
                trip(&m, &phrase_text(&p), n % 16 == 0, o)
            });
        }
        for i in numbers() {
            o.case("hexadecimal errors", || i.to_string(), |o| {
                let e = hex::Error::UnknownSymbol(i);
                trip(&e, &format!("{{\"UnknownSymbol\":{}}}", i), i < 300 || i > 69990, o)
            });
        }
        // things of another form
        for (j, v) in [
            json!(null), json!(true), json!(0), json!(-1), json!(1.5), json!([]), json!([1]), json!({}), json!({"Type": 1}),
            json!({"UnknownSymbol": -1}), json!({"UnknownSymbol": "1"}), json!({"UnknownSymbol": null}), json!({"UnknownSymbol": 1.5}),
            json!({"UnknownSymbols": 1}), json!({"unknownSymbol": 1}), json!({"MnemonicWordNotFoundInDictionary": 1}),
            json!({"MnemonicWordNotFoundInDictionary": null}), json!({"MnemonicWordNotFound": "x"}),
        ].iter().enumerate() {
            o.case("things of another form", || format!("{} {}", j, v), |o| {
                o.steps += 4;
                refused::<Type>(v)?;
                refused::<MnemonicString>(v)?;
                refused::<dictionary::Error>(v)?;
                refused::<hex::Error>(v)
            });
        }
    }
}

/// What the library does apart from serialization, to be compared between the builds.
fn rest(o: &mut Out, thorough: bool) {
    for d in DICTS {
        let mut list = String::new();
        for w in 0..2048 {
            let word = d.lookup_word(MnemonicIndex(w)).unwrap();
            list += &format!("{} {:?};", word, d.lookup_mnemonic(&word));
        }
        list += &format!("{:?} {:?} {:?}", d.lookup_word(MnemonicIndex(2048)), d.lookup_mnemonic("nowhere"), d.lookup_mnemonic(""));
        o.said("word lists", &list);
        for t in TYPES {
            for (j, e) in entropies(t.to_key_size() / 8).iter().enumerate() {
                if !thorough && j % 3 != 0 {
                    continue;
                }
                let ent = Entropy::from_slice(e).unwrap();
                let m = ent.to_mnemonics();
                let s = m.to_string(d);
                let swapped: Vec<&str> = s.split(' ').rev().collect();
                o.said("phrases", &format!("{} {:?} {} {:?} {:?}", s, m, ent.checksum(), Mnemonics::from_string(d, &s), MnemonicString::new(d, swapped.join(" ")).map(|x| x.to_string())));
                o.said("entropies", &format!("{} {:?} {:?}", ent, Entropy::from_mnemonics(&m), Mnemonics::from_string(d, &swapped.join(" ")).and_then(|m| Entropy::from_mnemonics(&m))));
                if j < 7 {
                    o.said("seeds", &format!("{:?}", Seed::from_mnemonic_string(&s, &e[..4])));
                }
            }
        }
    }
    for n in 0..300usize {
        let r = |x: String| x;
        let s = r(format!(
            "{:?} {:?} {:?} {:?} {:?} {:?} {:?}",
            Type::from_word_count(n),
            Type::from_entropy_size(n),
            n.to_string().parse::<Type>(),
            Entropy::from_slice(&vec![1; n]),
            Seed::from_slice(&vec![1; n]),
            MnemonicIndex::new(n as u16 * 16),
            Mnemonics::from_mnemonics(vec![MnemonicIndex(1); n])
        ));
        o.said("sizes", &s);
        let b: Vec<u8> = (0..n).map(|i| (i * 11) as u8).collect();
        let mut h = hex::encode(&b);
        o.said("hexadecimal", &format!("{} {:?}", h, hex::decode(&h)));
        h.insert(n, 'g');
        o.said("hexadecimal", &format!("{:?}", hex::decode(&h)));
    }
    for t in TYPES {
        o.said("sizes", &format!("{} {:?} {} {} {} {:?}", t, t, t.to_key_size(), t.checksum_size_bits(), t.mnemonic_count(), Type::default()));
    }
    if let Err(e) = Mnemonics::from_string(&dictionary::ENGLISH, "nowhere") {
        o.said("errors", &format!("{} {:?}", e, e));
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(1).map(|t| t == "thorough").unwrap_or(false);
    let mut o = Out { only: a.get(2).cloned(), ..Default::default() };
    #[cfg(feature = "on")]
    on::run(&mut o, thorough);
    rest(&mut o, thorough);
    println!(
        "{}",
        serde_json::json!({"cases": o.cases, "steps": o.steps, "states": o.states.len(), "per": o.per, "rest": o.rest, "violations": o.bad})
    );
}
