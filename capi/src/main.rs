//! The oracle of C36: reads what a C program says it called and got, does the same in Rust, and compares.
//! capi-oracle --make FILE          writes wallets to be read by the C program
//! capi-oracle NETWORKS FILE        judges the transcript; NETWORKS: 1 cardano, 2 ethereum, 4 bitcoin
use keychain::crypt;
use keychain::networks::{bitcoin, cardano, ethereum};
use keychain::{Error, GenericKeyPath, KeyPath, Keychain, KeychainManager, Language, Network};
use std::collections::{HashMap, HashSet};

const NETS: [Network; 3] = [Network(0x80000717), Network(0x8000003c), Network(0x80000000)];
const LANGS: [(Language, &str); 8] = [
    (Language::English, "English"),
    (Language::French, "French"),
    (Language::Japanese, "Japanese"),
    (Language::Korean, "Korean"),
    (Language::ChineseSimplified, "ChineseSimplified"),
    (Language::ChineseTraditional, "ChineseTraditional"),
    (Language::Italian, "Italian"),
    (Language::Spanish, "Spanish"),
];
struct P([u32; 5]);
impl KeyPath for P {
    fn purpose(&self) -> u32 { self.0[0] }
    fn coin(&self) -> u32 { self.0[1] }
    fn account(&self) -> u32 { self.0[2] }
    fn change(&self) -> u32 { self.0[3] }
    fn address(&self) -> u32 { self.0[4] }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Result<Vec<u8>, String> {
    if s.len() % 2 == 1 {
        return Err(format!("not hex: {}", s));
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(|_| format!("not hex: {}", s))).collect()
}
fn text(s: &str) -> Result<String, String> {
    String::from_utf8(unhex(s)?).map_err(|e| e.to_string())
}
fn manager(bits: u32) -> KeychainManager {
    let v: Vec<Network> = (0..3).filter(|i| bits >> i & 1 == 1).map(|i| NETS[i]).collect();
    KeychainManager::with_networks(&v).expect("a manager")
}
fn error(e: Error) -> String {
    let name = match &e {
        Error::WrongPassword => "WrongPassword",
        Error::NotEnoughData => "NotEnoughData",
        Error::SeedIsNotSaved => "SeedIsNotSaved",
        Error::CantCalculateSeedSize(..) => "CantCalculateSeedSize",
        Error::DataError(_) => "DataError",
        Error::InvalidSeedSize(_) => "InvalidSeedSize",
        Error::KeyDoesNotExist(_) => "KeyDoesNotExist",
        Error::KeyAlreadyExist(_) => "KeyAlreadyExist",
        Error::NetworkIsNotSupported(_) => "NetworkIsNotSupported",
        Error::KeyError(..) => "KeyError",
        Error::KeyPathError(_) => "KeyPathError",
        Error::MnemonicError(_) => "MnemonicError",
    };
    format!("error {} {}", name, hex(e.to_string().replace('\0', "").as_bytes()))
}
fn told<T>(r: Result<T, Error>, show: impl Fn(T) -> String) -> String {
    match r {
        Ok(v) => format!("done {}", show(v)),
        Err(e) => error(e),
    }
}
fn path(p: &dyn KeyPath) -> String {
    format!("{} {} {} {} {}", p.purpose(), p.coin(), p.account(), p.change(), p.address())
}
/// What is in a container, whatever its salt, nonce and order.
fn contents(c: &[u8], pw: &str) -> Result<String, String> {
    let d = crypt::decrypt(c, pw).map_err(|e| e.to_string())?;
    let v: serde_json::Value = serde_json::from_slice(&d).map_err(|e| e.to_string())?;
    let b = base64::decode(v["data"].as_str().ok_or("no data")?).map_err(|e| e.to_string())?;
    let mut w: serde_json::Value = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
    if let Some(k) = w.get_mut("keys").and_then(|k| k.as_array_mut()) {
        k.sort_by_key(|x| x.to_string());
    }
    Ok(format!("{} {}", v["version"], w))
}
struct Judge {
    m: KeychainManager,
    bits: u32,
    wallets: HashMap<String, Keychain>,
    seen: HashSet<String>,
}
impl Judge {
    /// One line; what it should be, when it is not.
    fn line(&mut self, l: &str) -> Result<(), String> {
        let f: Vec<&str> = l.split('|').collect();
        let (got, a) = (f[f.len() - 1], &f[1..f.len() - 1]);
        let arg = |i: usize| a.get(i).copied().ok_or(format!("malformed line {}", l));
        let num = |i: usize| -> Result<u32, String> { arg(i)?.parse().map_err(|_| format!("malformed number in {}", l)) };
        let lang = |i: usize| -> Result<Language, String> {
            let n = arg(i)?;
            LANGS.iter().find(|x| x.1 == n).map(|x| x.0).ok_or(format!("no language {}", n))
        };
        let five = |i: usize| -> Result<P, String> {
            let v: Vec<u32> = arg(i)?.split(' ').map(|x| x.parse().map_err(|_| format!("malformed path in {}", l))).collect::<Result<_, _>>()?;
            Ok(P(v.try_into().map_err(|_| format!("malformed path in {}", l))?))
        };
        let m = &self.m;
        let want = match f[0] {
            "new" => "done ".into(),
            "number" => {
                let i = ["cardano", "ethereum", "bitcoin"].iter().position(|n| Some(n) == a.first()).ok_or("no such network")?;
                if self.bits >> i & 1 == 0 {
                    return Err(format!("{} is not chosen", a[0]));
                }
                NETS[i].0.to_string()
            }
            "has" => format!("done {}", m.has_network(&Network(num(0)?))),
            "path" => told(GenericKeyPath::from(&text(arg(0)?)?).map_err(|e| e.into()), |p| path(&p)),
            "ethereum" => told(ethereum::KeyPath::new(num(0)?).map_err(|e| e.into()), |p| path(&p)),
            "metamask" => told(ethereum::KeyPath::new_metamask(num(0)?).map_err(|e| e.into()), |p| path(&p)),
            "cardano" => told(cardano::KeyPath::new(num(0)?, num(1)?, num(2)?).map_err(|e| e.into()), |p| path(&p)),
            "bip44" => told(bitcoin::KeyPath::bip44(num(0)? == 1, num(1)?, num(2)?, num(3)?).map_err(|e| e.into()), |p| path(&p)),
            "bip49" => told(bitcoin::KeyPath::bip49(num(0)? == 1, num(1)?, num(2)?, num(3)?).map_err(|e| e.into()), |p| path(&p)),
            "bip84" => told(bitcoin::KeyPath::bip84(num(0)? == 1, num(1)?, num(2)?, num(3)?).map_err(|e| e.into()), |p| path(&p)),
            "generate" => {
                let p = text(got.strip_prefix("done ").ok_or(format!("no phrase: {}", got))?)?;
                let n = |s: &str| s.split(' ').count();
                let own = m.generate_mnemonic(Some(lang(0)?)).map_err(|e| e.to_string())?;
                m.keychain_data_from_mnemonic(&p, "", Some(lang(0)?)).map_err(|e| format!("phrase '{}': {}", p, e))?;
                if n(&p) != n(&own) || !self.seen.insert(p.clone()) {
                    return Err(format!("phrase '{}'", p));
                }
                return Ok(());
            }
            "from phrase" => return self.container(m.keychain_data_from_mnemonic(&text(arg(0)?)?, &text(arg(1)?)?, Some(lang(2)?)), got, &text(arg(1)?)?),
            "from seed" => return self.container(m.keychain_data_from_seed(&unhex(arg(0)?)?, &text(arg(1)?)?), got, &text(arg(1)?)?),
            "add" => return self.container(m.add_network(&unhex(arg(0)?)?, &text(arg(1)?)?, Network(num(2)?)), got, &text(arg(1)?)?),
            "password" => return self.container(m.change_password(&unhex(arg(0)?)?, &text(arg(1)?)?, &text(arg(2)?)?), got, &text(arg(2)?)?),
            "open" => match m.keychain_from_data(&unhex(arg(0)?)?, &text(arg(1)?)?) {
                Ok(w) => {
                    self.wallets.insert(arg(2)?.into(), w);
                    "done ".into()
                }
                Err(e) => error(e),
            },
            "phrase" => told(m.retrieve_mnemonic(&unhex(arg(0)?)?, &text(arg(1)?)?), |(p, l)| {
                format!("{} {}", hex(p.as_bytes()), LANGS.iter().find(|x| x.0 == l).unwrap().1)
            }),
            "keys" => {
                let w = told(m.get_keys_data(&unhex(arg(0)?)?, &text(arg(1)?)?), |v| {
                    v.iter().map(|(n, k)| format!("{}:{} ", n.0, hex(k))).collect()
                });
                if sorted(&w) == sorted(got) {
                    return Ok(());
                }
                w
            }
            "networks" | "key" | "sign" | "verify" => {
                let w = self.wallets.get(arg(0)?).ok_or("no such wallet")?;
                match f[0] {
                    "networks" => {
                        let w = format!("done {}", w.networks().iter().map(|n| format!("{} ", n.0)).collect::<String>());
                        if sorted(&w) == sorted(got) {
                            return Ok(());
                        }
                        w
                    }
                    "key" => told(w.pub_key(&Network(num(1)?), &five(2)?), |k| hex(&k)),
                    "sign" => told(w.sign(&Network(num(1)?), &unhex(arg(3)?)?, &five(2)?), |k| hex(&k)),
                    _ => told(w.verify(&Network(num(1)?), &unhex(arg(3)?)?, &unhex(arg(4)?)?, &five(2)?), |v| v.to_string()),
                }
            }
            _ => return Err(format!("malformed line {}", l)),
        };
        if want != got {
            return Err(format!("{}({}): C got '{}', Rust '{}'", f[0], cut(&a.join(", ")), cut(got), cut(&want)));
        }
        Ok(())
    }
    fn container(&self, r: Result<Vec<u8>, Error>, got: &str, pw: &str) -> Result<(), String> {
        match r {
            Err(e) => {
                let w = error(e);
                if w != got { Err(format!("C got '{}', Rust '{}'", cut(got), cut(&w))) } else { Ok(()) }
            }
            Ok(c) => {
                let g = unhex(got.strip_prefix("done ").ok_or(format!("C got '{}', Rust a wallet", cut(got)))?)?;
                let (w, g) = (contents(&c, pw)?, contents(&g, pw)?);
                if w != g { Err(format!("C got a wallet of {}, Rust one of {}", g, w)) } else { Ok(()) }
            }
        }
    }
}
fn sorted(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split(' ').collect();
    v.sort();
    v
}
fn cut(s: &str) -> String {
    s.chars().take(700).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "--make" {
        let mut s = String::new();
        let seed: Vec<u8> = (0..64u8).map(|i| i.wrapping_mul(37) ^ 0x5c).collect();
        for bits in 1..8 {
            let m = manager(bits);
            s += &(hex(&m.keychain_data_from_seed(&seed, "pw").unwrap()) + "\n");
            let l = LANGS[bits as usize].0;
            let p = m.generate_mnemonic(Some(l)).unwrap();
            s += &(hex(&m.keychain_data_from_mnemonic(&p, "pw", Some(l)).unwrap()) + "\n");
        }
        std::fs::write(&a[2], s).unwrap();
        return;
    }
    let bits = a[1].parse().unwrap();
    let mut j = Judge { m: manager(bits), bits, wallets: HashMap::new(), seen: HashSet::new() };
    let b = std::fs::read(&a[2]).unwrap();
    let s = String::from_utf8_lossy(&b);
    let mut n = 0;
    let mut ended = false;
    let mut states: HashSet<String> = HashSet::new();
    let mut names: HashMap<String, usize> = HashMap::new();
    for l in s.lines() {
        if ended {
            println!("WRONG a line after the end");
            std::process::exit(1);
        }
        if l == "end" {
            ended = true;
            continue;
        }
        if let Err(e) = j.line(l) {
            println!("WRONG {}", e);
            std::process::exit(1);
        }
        n += 1;
        *names.entry(l.split('|').next().unwrap().into()).or_default() += 1;
        states.insert(format!("{} {}", l.split('|').next().unwrap(), cut(l.rsplit('|').next().unwrap())));
    }
    if !ended {
        println!("WRONG the C program did not come to its end");
        std::process::exit(1);
    }
    let mut v: Vec<String> = names.iter().map(|(k, n)| format!("\"{}\": {}", k, n)).collect();
    v.sort();
    println!("RIGHT {{\"lines\": {}, \"states\": {}, \"calls\": {{{}}}}}", n, states.len(), v.join(", "));
}
