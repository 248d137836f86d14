#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

B = 'bip39/src/bip39.rs'
NT = 'The crate has no unit test at all; '
p('C01', 'Entropy and recovery phrase convert both ways without loss',
  'For each supported phrase length (9, 12, 15, 18, 21, 24 words) and every entropy value of that size, the phrase made from it is the BIP-39 encoding: the entropy bits followed by the leading bits of their SHA-256, cut into 11-bit word numbers. Decoding that phrase, from word numbers or from its text in any of the eight built-in languages, gives back exactly the same entropy.',
  ['inputs'], 'every entropy value of the six sizes, every language',
  'Tests encode a handful of vectors of 12, 18 and 24 words; no test reaches every word value at every word position, the 9/15/21-word sizes, or six of the eight languages.',
  [B, 'bip39/src/util/bits.rs'], [('Entropy::to_mnemonics / Entropy::from_mnemonics', B), ('BitReaderBy11 / BitWriterBy11', 'bip39/src/util/bits.rs'), ('Mnemonics::to_string / from_string', B)],
  ['bip39::Entropy', 'bip39::Mnemonics'])
p('C02', 'A phrase decodes exactly when its checksum matches',
  'A sequence of word numbers of a supported length decodes to an entropy if and only if its trailing checksum bits equal the leading bits of the SHA-256 of its entropy bits. Every other sequence is refused with a checksum error and never yields an entropy.',
  ['inputs'], 'every word sequence of a supported length',
  'No test decodes a phrase with a wrong checksum; a decoder that compared too few bits would pass all of them.',
  [B], [('Entropy::from_mnemonics', B), ('Entropy::checksum', B), ('Type::checksum_size_bits', B)], ['bip39::Entropy::from_mnemonics', 'bip39::Entropy::checksum'])
p('C03', 'Each built-in word list is the published list and a two-way lookup',
  'Each of the eight built-in dictionaries is the published BIP-39 list of 2048 words in order. Looking up the word of a number and the number of a word are inverse to each other, and any other string is refused with an error naming it.',
  ['inputs', 'configurations'], 'every word number and word of the eight lists, and every string that is not in the list',
  'Tests look up four English words and the words of two vector files; a swapped, misspelt or duplicated word elsewhere would make phrases that no other wallet can restore.',
  [B, 'bip39/src/dicts'], [('DefaultDictionary::lookup_word / lookup_mnemonic', B), ('the dictionary constants', B), ('Language::to_dict', 'keychain/src/mnemonic.rs')], ['bip39::dictionary', 'bip39::MnemonicIndex'])
p('C04', 'Unsupported sizes and word numbers are refused, never read out of bounds',
  'Every constructor that takes a word count, an entropy length, a seed length or a word number accepts exactly the values BIP-39 allows (word counts 9..24 in threes, entropies of 96..256 bits in steps of 32, 64-byte seeds, word numbers 0..2047) and gives a value of exactly that size. Anything else is refused with an error that carries the refused value, and a word number past the end of a list never yields a word.',
  ['inputs'], 'all lengths and all 16-bit word numbers',
  'Tests and doc examples try one wrong seed length and one wrong word number.',
  [B], [('Type::from_word_count / from_entropy_size', B), ('MnemonicIndex::new', B), ('Seed::from_slice, Entropy::from_slice, Mnemonics::from_mnemonics', B), ('DefaultDictionary::lookup_word', B)], ['bip39 constructors'])
p('C05', 'The seed is the BIP-39 seed of exactly this phrase and passphrase',
  'The seed of a phrase is PBKDF2-HMAC-SHA512 over the exact bytes of the phrase text, with the salt "mnemonic" followed by the exact bytes of the passphrase, 2048 rounds, 64 bytes. It depends on nothing else: equal inputs always give the same seed, whatever was computed before.',
  ['inputs'], 'every valid phrase in every language and every passphrase of any length',
  'The vectors all use one passphrase ("TREZOR" or one Japanese text) and two languages.',
  [B, 'keychain/src/mnemonic.rs'], [('Seed::from_mnemonic_string', B), ('MnemonicString', B), ('seed_from_mnemonic', 'keychain/src/mnemonic.rs')], ['bip39::Seed'])
p('C06', 'Hexadecimal and 11-bit packing lose nothing',
  'Decoding the hexadecimal text of any bytes gives the bytes back, in either letter case and with blanks or line breaks between digits, and the first other character is reported with its position. Writing any sequence of 11-bit numbers packs them most significant bit first without gaps, reading returns the same sequence, and the reader reports how many whole numbers are left.',
  ['inputs', 'histories'], 'all byte strings, all texts, all sequences of 11-bit numbers at every alignment',
  'Two four-byte vectors for hexadecimal, one fixed 22-byte buffer for the reader, no test of the writer at every alignment with every value.',
  ['bip39/src/util/hex.rs', 'bip39/src/util/bits.rs'], [('encode / decode', 'bip39/src/util/hex.rs'), ('BitWriterBy11::write, BitReaderBy11::read / size', 'bip39/src/util/bits.rs')], ['bip39::util::hex', 'bip39::util::bits'],
  [('State', 'bit alignment of the next 11-bit number within a byte', 'bip39/src/util/bits.rs')])
S = 'secp256k1_bip32/src/private.rs'; SP = 'secp256k1_bip32/src/public.rs'
p('C07', 'Child keys follow BIP-32 for every seed, parent and index',
  'The master key of a seed and the child of any extended private key at any index (hardened from 2^31 on, normal below) are the BIP-32 keys: private key, chain code, depth, index and parent fingerprint. Derivation works down to depth 255 and is refused with an error beyond it, and the public key is the one of the derived private key.',
  ['inputs', 'histories'], 'every seed, every extended key, every index, every chain of derivations',
  NT + 'derivation is reached by no test.',
  [S, SP], [('XPrv::from_seed, XPrv::derive, XPrv::public', S), ('XPub::serialize / serialize_compressed', SP)], ['secp256k1_bip32::XPrv', 'secp256k1_bip32::XPub'])
p('C08', 'Extended private keys survive storage and damaged ones are refused',
  'Serializing an extended private key gives 77 bytes (depth, parent fingerprint, index, chain code, key, and a 4-byte double-SHA-256 checksum) from which exactly the same key is read back. Data of any other length, with a checksum that does not match, or with a private key that is zero or not below the group order is refused with an error.',
  ['inputs'], 'every extended key and every byte string offered as one',
  NT + 'storage of keys is reached by no test.',
  [S], [('XPrv::serialize / XPrv::from_data', S), ('data_layout', S)], ['secp256k1_bip32::XPrv'])
p('C09', 'secp256k1 signatures verify, recover the key, and bind key and message',
  'Signing any message gives 65 bytes: r, s in the lower half of its range, and a recovery number of 0 or 1, and signing again gives the same bytes. The signature, with or without its last byte, verifies under the signer\'s public key and lets Ethereum-style recovery over the Keccak-256 of the message find this key. Verification is false or an error for any other message, any other key, and for any altered r, s or recovery number (the known n-s twin of a signature, with the recovery number flipped if there is one, aside), and an error for any other length.',
  ['inputs'], 'every key, every message of any length, every altered signature',
  NT + 'signing and verifying are reached by no test.',
  [S, SP], [('XPrv::sign', S), ('XPub::verify', SP)], ['secp256k1_bip32::XPrv::sign', 'secp256k1_bip32::XPub::verify'])
K = 'keychain/src/'
NW = K + 'networks/'
p('C10', 'Public keys are the ones each network derivation prescribes',
  'For every wallet and every path a network allows, the public key given is the one found by deriving, one after the other, purpose, coin, account, change and address from the wallet\'s root key for that network: BIP-32 over secp256k1 for Ethereum and Bitcoin (65-byte uncompressed key), Ed25519-BIP32 V2 for Cardano (64-byte extended public key). The root key is the BIP-32 master key of the seed for Ethereum and Bitcoin, and for Cardano the clamped SHA-512 of the first seed half with the second half as chain code. No component of the path is ignored, truncated or confused with another.',
  ['inputs'], 'every seed, every network, every allowed path',
  NT + 'a wrong key would be noticed only when funds sent to it are lost.',
  [NW + 'bitcoin/key.rs', NW + 'ethereum/key.rs', NW + 'cardano/key.rs', K + 'keychain.rs', S], [('Key::derive_private of each network', NW), ('Key::data_from_seed / from_data', NW), ('Keychain::pub_key', K + 'keychain.rs')], ['keychain::Keychain::pub_key', 'keychain_pub_key'])
p('C11', 'Paths a network does not allow are refused, with the culprit named',
  'Asking a wallet for a public key, a signature or a verification at a path is refused with a key path error of that network if the coin is not the network\'s (Bitcoin: main or test net), the account is not hardened, the change is neither 0 nor 1, the address is hardened, or (Ethereum, Cardano) the purpose is not 44\'; the message carries the value of an offending component. All other paths are served; Bitcoin serves any purpose. A network the wallet has no key for is refused with its own error.',
  ['inputs', 'configurations'], 'every combination of five 32-bit path components, every network, all three operations',
  NT + 'no test asks for a key with a wrong path.',
  [NW + 'bitcoin/key.rs', NW + 'ethereum/key.rs', NW + 'cardano/key.rs', K + 'keychain.rs'], [('Key::derive_private checks', NW), ('Keychain::_pk', K + 'keychain.rs')], ['keychain::Keychain::{pub_key,sign,verify}'])
p('C12', 'Path constructors accept exactly the valid components',
  'Each key path constructor (Bitcoin BIP-44/49/84 main and test net, Cardano, Ethereum standard and MetaMask style) accepts an account, change and address exactly when account and address are below 2^31 and change is 0 or 1, and otherwise names the offending component and its value. The path made has the documented purpose and coin, the account hardened and the other components as given, and the wallet of that network serves it.',
  ['inputs'], 'every combination of constructor arguments',
  NT + 'no test constructs a path.',
  [NW + 'bitcoin/key_path.rs', NW + 'ethereum/key_path.rs', NW + 'cardano/key_path.rs'], [('KeyPath::bip44/bip49/bip84', NW + 'bitcoin/key_path.rs'), ('KeyPath::new', NW + 'cardano/key_path.rs'), ('KeyPath::new / new_metamask', NW + 'ethereum/key_path.rs')], ['keychain::networks::*::KeyPath', 'keypath_*_new*'])
p('C13', 'Textual key paths parse to what they say and print back',
  'A text "m/" followed by five "/"-separated decimal numbers below 2^31, each optionally followed by \' for 2^31 more, parses to exactly these numbers, and printing a parsed path gives a text that parses to the same path. A text with another number of parts, another marker, an empty or non-numeric component, or a number too big for its place is an error; no text whatsoever makes parsing panic or yields another number than it says.',
  ['inputs'], 'every text',
  NT + 'no test parses a path.',
  [K + 'key_path.rs'], [('GenericKeyPath::from / to_string', K + 'key_path.rs')], ['keychain::GenericKeyPath', 'keypath_from_string'])
p('C14', 'A wallet signature verifies for its own network, path and message only',
  'For every network, allowed path and message, the signature a wallet makes verifies in that wallet, and in any wallet of the same seed, for the same network, path and message. It verifies for no other path, network, message or seed, and signing is deterministic. The signature is the network\'s standard one under the public key the wallet gives for the path: Ed25519 of the message for Cardano, ECDSA over its Keccak-256 hash with recovery number for the others.',
  ['inputs', 'configurations'], 'every pair of (seed, network, path, message) triples',
  NT + 'no test signs.',
  [K + 'keychain.rs', NW + 'bitcoin/key.rs', NW + 'ethereum/key.rs', NW + 'cardano/key.rs'], [('Keychain::sign / Keychain::verify', K + 'keychain.rs'), ('Key::sign / Key::verify of each network', NW)], ['keychain::Keychain::{sign,verify}'])
p('C15', 'Malformed signatures and stored keys are refused without a crash',
  'Offering any byte string as signature to verify gives false or an error, never a panic, and never true unless it is a signature of the message by that key; a wrong length is an error. Offering any byte string as a network\'s stored key gives a key only if it has the exact length and is valid for the network (checksum and range for Ethereum and Bitcoin, the three clamped bit groups for Cardano), else an error.',
  ['inputs'], 'every byte string as signature or stored key',
  NT + 'no malformed input is tried by any test.',
  [NW + 'cardano/key.rs', NW + 'ethereum/key.rs', NW + 'bitcoin/key.rs', S, SP], [('Key::from_data', NW), ('Key::verify', NW), ('KeyFactory::key_from_data', NW)], ['keychain::Keychain::verify', 'keychain::KeyFactory::key_from_data'])
p('C16', 'Only the right password opens a container, and only an unaltered one',
  'Data encrypted under a password is decrypted to the same bytes by that password, for any payload and any password including the empty one. Every other password (not counting trailing NUL characters), and every container with any bit flipped, any part cut off, moved or added, is refused, by every operation that reads a container: with "not enough data" if it is shorter than the 60-byte header, else with "wrong password".',
  ['inputs'], 'every payload, every pair of passwords, every altered container, every reading operation',
  NT + 'no test encrypts, decrypts or tries a wrong password.',
  [K + 'crypt.rs', K + 'manager.rs', K + 'error.rs'], [('encrypt / decrypt', K + 'crypt.rs'), ('From<DecryptError> for Error', K + 'error.rs')], ['keychain::crypt', 'keychain::KeychainManager'])
p('C17', 'Containers keep the stored format; earlier wallets still open',
  'A container is salt (32), nonce (12), tag (16), then ChaCha20-Poly1305 ciphertext under PBKDF2-HMAC-SHA512 of the password (19162 rounds), and holds the versioned JSON document with base64 data that earlier releases wrote. Every wallet written by an earlier release, of version 1 or 2, with any language, network set or source, opens with the same networks, keys and signatures; a wallet of an unknown version is refused.',
  ['inputs', 'configurations', 'histories'], 'every wallet document of versions 1 and 2, every payload written now',
  NT + 'nothing pins the stored format; a change of it locks every user out of existing wallets.',
  [K + 'crypt.rs', K + 'data.rs', K + 'mnemonic.rs'], [('password_encryption_parameter', K + 'crypt.rs'), ('VersionedData, WalletDataV1, WalletDataV2, serialize', K + 'data.rs')], ['keychain::KeychainManager', 'keychain::crypt'])
p('C18', 'Salt, nonce and phrase entropy are fresh and whole, even if reads fail',
  'Each time a container is written, its 32-byte salt and 12-byte nonce are bytes the system random source delivered for this write and for nothing else; every entropy bit of a generated phrase is too. If the source is interrupted or answers short, the operation still gets every byte from it; if it fails, the operation yields no container or phrase at all, and once it works again so do later operations on the same manager.',
  ['fault_sequences', 'histories'], 'every sequence of operations and every sequence of full, short, interrupted and failed answers of the random source',
  'Tests use the real random source once and cannot make it fail; reuse of a nonce or a zero salt is invisible to a test that only decrypts.',
  [K + 'entropy.rs', K + 'crypt.rs', K + 'manager.rs', K + 'mnemonic.rs'], [('OsEntropy::fill_bytes', K + 'entropy.rs'), ('encrypt', K + 'crypt.rs'), ('generate_entropy', K + 'mnemonic.rs')], ['keychain::KeychainManager', 'keychain::crypt::encrypt'],
  [('random', 'random source behind a lock, shared by all operations of a manager', K + 'entropy.rs')])
p('C19', 'Any history of wallet operations leaves exactly the expected wallet',
  'After any sequence of creating a wallet from a seed or a phrase, adding networks and changing the password, with any set of networks enabled, the wallet opens with exactly the networks created or added that the opening manager supports, each with the key that belongs to the original seed, under exactly the latest password. Adding a network that is already there, that the manager does not support, or to a wallet that keeps no seed is refused with its own error, with refused operations changing nothing.',
  ['histories', 'configurations'], 'every sequence of wallet operations, every set of enabled networks',
  NT + 'no test performs even one wallet operation, let alone sequences of them.',
  [K + 'manager.rs', K + 'keychain.rs', K + 'data.rs'], [('keychain_data_from_seed / keychain_data_from_mnemonic / add_network / change_password / keychain_from_data', K + 'manager.rs'), ('WalletDataV2', K + 'data.rs')], ['keychain::KeychainManager'],
  [('seed, mnemonic, dictionary, keys', 'contents of the wallet document', K + 'data.rs'), ('factories', 'networks the manager supports', K + 'manager.rs')])
p('C20', 'Changing the password changes the password and nothing else',
  'Changing the password from any old to any new one gives a container whose contents are byte for byte those of the original, which opens with the new password and not with the old one unless they are equal. With a wrong old password the change is refused, and the original container stays usable either way.',
  ['inputs', 'histories'], 'every container contents, every pair of passwords, every chain of changes',
  NT + 'no test changes a password.',
  [K + 'manager.rs', K + 'crypt.rs'], [('change_password', K + 'manager.rs')], ['keychain::KeychainManager::change_password', 'keychain_manager_change_password'])
p('C21', 'Answers do not depend on earlier operations or on other networks',
  'What a wallet or a manager answers to an operation depends only on the operation\'s inputs and the wallet: not on which operations, successful or refused, it served before, nor on which other networks are in the wallet or enabled in the manager, nor on the internal order of networks. A wallet lists exactly the networks it has, each once.',
  ['histories', 'configurations'], 'every sequence of operations on one wallet or manager, every set of networks, every internal order',
  NT + 'caching or shared scratch state would be invisible to any test that performs one operation.',
  [K + 'keychain.rs', K + 'manager.rs', NW + 'bitcoin/key.rs', NW + 'ethereum/key.rs', NW + 'cardano/key.rs'], [('Keychain::keys', K + 'keychain.rs'), ('KeychainManager::factories', K + 'manager.rs'), ('all_networks', NW + 'mod.rs')], ['keychain::Keychain', 'keychain::KeychainManager'])
p('C22', 'Generated phrases have the agreed strength and import into the same wallet',
  'A manager exists exactly when the seed sizes its networks allow have a common non-zero value, and uses the smallest one. Every phrase it generates encodes exactly that many random bits in the language asked for (English by default), and importing it in that language makes a wallet of all its networks.',
  ['inputs', 'configurations'], 'every set of networks, every language, every value of the random bits, every seed size range of custom networks',
  NT + 'no test generates a phrase through a manager or builds one with fewer networks.',
  [K + 'manager.rs', K + 'mnemonic.rs', K + 'key_factory.rs'], [('calculate_seed_size', K + 'manager.rs'), ('generate_mnemonic', K + 'manager.rs'), ('generate_entropy / mnemonic_from_entropy', K + 'mnemonic.rs')], ['keychain::KeychainManager::{new,with_networks,with_factories,generate_mnemonic}'])
p('C23', 'Import accepts exactly the valid phrases and seeds',
  'Importing a phrase succeeds exactly if it consists of words of the given language separated by single spaces, as many as the manager\'s own phrases have, with a matching checksum; importing a raw seed succeeds exactly if it has 64 bytes. The wallet made has the keys of the BIP-39 seed of that phrase with an empty passphrase, or of that raw seed; everything else is refused with an error that tells a phrase problem from a seed size problem, and never makes a wallet.',
  ['inputs', 'configurations'], 'every text in every language, every byte string as seed, every set of networks',
  NT + 'no test imports a phrase into a manager.',
  [K + 'manager.rs', K + 'mnemonic.rs'], [('seed_from_mnemonic, check_mnemonic', K + 'mnemonic.rs'), ('seed_from_data, new_keychain_data', K + 'manager.rs')], ['keychain::KeychainManager::{keychain_data_from_mnemonic,keychain_data_from_seed}'])
p('C24', 'Damaged or foreign wallet contents give errors, never a crash or wrong keys',
  'Opening, extending or backing up a correctly encrypted container whose contents are not a valid wallet document (cut off, with fields missing, of the wrong type or with wrong values, bad base64, invalid keys, an unknown version, or no document at all) gives an error and no wallet, and never panics. Documents that are valid are read the same in every equivalent spelling, and keys of networks the manager does not know are kept when another network is added.',
  ['inputs'], 'every byte string as decrypted contents',
  NT + 'no test offers a damaged document.',
  [K + 'data.rs', K + 'manager.rs'], [('VersionedData::from_bytes / get_data', K + 'data.rs'), ('serialize::de_key_map / de_opt_vec', K + 'data.rs'), ('keychain_data_from_bytes', K + 'manager.rs')], ['keychain::KeychainManager'])
p('C25', 'A backup returns exactly what the wallet was made from',
  'Retrieving the phrase of a wallet made from a phrase gives exactly that text and language, and retrieving the key data gives exactly one entry per network in the wallet, enabled or not, with the key that belongs to the wallet, after any history of added networks and password changes. A wallet without a stored phrase says so with its own error, and a wrong password reveals nothing.',
  ['histories', 'inputs', 'configurations'], 'every wallet, every history, every language',
  'The backup operations are behind an optional feature that no test enables.',
  [K + 'manager.rs', K + 'data.rs'], [('retrieve_mnemonic / get_keys_data', K + 'manager.rs')], ['keychain::KeychainManager::{retrieve_mnemonic,get_keys_data}', 'keychain_manager_retrieve_mnemonic', 'keychain_manager_get_keys_data'])
C = 'keychain-c/src/'
p('C26', 'The C interface gives the same answers and error codes as the Rust interface',
  'Every C function returns true and writes only its result, or returns false and writes only the error, and does so exactly as the Rust operation of the same name succeeds or fails with the same arguments. Results (keys, signatures, phrases, paths, networks, backups, verdicts) are the same bytes and values, every error kind has its own documented code with the Rust error\'s message, and network and language numbers mean the same on both sides.',
  ['inputs', 'histories', 'configurations'], 'every C function, every argument, every error kind',
  'The C crate has no test.',
  [C + 'manager.rs', C + 'keychain_c.rs', C + 'key_path.rs', C + 'error.rs', C + 'network.rs', C + 'backup.rs', C + 'bitcoin.rs', C + 'cardano.rs', C + 'ethereum.rs'], [('extern "C" functions', C), ('CResult::response', C + 'utils/result.rs'), ('ErrorPtr::error_type', C + 'error.rs'), ('Language conversions', C + 'manager.rs')], ['C API'])
p('C27', 'Everything the C interface hands out is released exactly once and completely',
  'After any sequence of C calls, releasing each result, error and handle with its delete function frees everything that was allocated for it, with the size and alignment it was allocated with, and nothing else. Deleting an already deleted or null result is harmless, and a failed call hands out nothing but its error.',
  ['histories', 'fault_sequences'], 'every sequence of C calls and deletions, successful and failing',
  'The C crate has no test, and leaks or mismatched deallocations are not visible in results.',
  [C + 'utils/data.rs', C + 'utils/string.rs', C + 'network.rs', C + 'backup.rs', C + 'manager.rs', C + 'keychain_c.rs', C + 'error.rs'], [('Ptr::free implementations', C), ('delete_* functions', C)], ['C API', 'global allocator'])
p('C28', 'No argument makes the C interface crash or unwind into the caller',
  'Null handles, null strings, null buffers (an empty buffer may be null), text that is not UTF-8, malformed data and failures inside the library all come back as false with an error whose message is a valid C string. The process is never aborted, no panic leaves a C function, and the handles stay usable for the next call.',
  ['inputs', 'fault_sequences', 'histories'], 'every C function with every malformed argument in every position, and every failing call to the random source',
  'The C crate has no test.',
  [C + 'utils/panic.rs', C + 'utils/string.rs', C + 'utils/data.rs', C + 'error.rs', C + 'manager.rs', C + 'keychain_c.rs', C + 'key_path.rs'], [('handle_exception / handle_exception_result', C + 'utils/panic.rs'), ('ErrorPtr', C + 'error.rs'), ('slice_from_c', C + 'utils/data.rs')], ['C API'])
p('C29', 'Simultaneous calls on one handle behave as if made one after the other',
  'When several threads call the C interface at the same time on the same manager or wallet handle, every call gives the result it would give alone, whatever the interleaving: same keys, signatures and verdicts, containers that open with their own password and contents, and salts, nonces and phrases shared by no two calls. No interleaving deadlocks.',
  ['schedules'], 'every interleaving of two or three threads with one call each',
  'No test uses more than one thread, and the operating system shows a test only a few of the interleavings.',
  [K + 'entropy.rs', K + 'manager.rs', K + 'keychain.rs', C + 'manager.rs', C + 'keychain_c.rs'], [('Mutex around the random source', K + 'entropy.rs'), ('shared references behind the handles', C)], ['C API'],
  [('random', 'the only mutable state shared by calls', K + 'entropy.rs')])
p('C30', 'Dropping entropy or a seed wipes it from memory',
  'When an entropy or seed value is dropped, normally or while a panic unwinds, the memory that held it contains none of its secret bytes any more, for every size and content. This holds for copies made by cloning as well as for the original, and dropping one does not touch another.',
  ['inputs', 'histories'], 'every size and content, every order of clone and drop',
  'Tests cannot see freed memory and none of them looks at it.',
  [B, 'bip39/src/util/securemem.rs'], [('Drop for Entropy / Seed', B), ('securemem::zero', 'bip39/src/util/securemem.rs')], ['bip39::Entropy', 'bip39::Seed', 'global allocator'])
p('C31', 'Every choice of compiled-in networks behaves like the full build',
  'The library built with any non-empty choice of the networks, with or without the backup and custom network features, offers exactly the chosen networks, and everything it does for them (keys, paths, signatures, containers, errors) is what the full build with those networks enabled does.',
  ['configurations'], 'every combination of the cargo features',
  'Tests are run with the default features only.',
  [K + 'lib.rs', NW + 'mod.rs', K + 'network.rs', K + 'key.rs', 'keychain/Cargo.toml'], [('cfg(feature) attributes', K), ('all_networks, Network::all', NW + 'mod.rs')], ['keychain crate built with feature subsets'])
p('C32', 'Values are equal exactly when they hold the same thing, and print as it',
  'Two entropies, seeds, word number lists, phrases, phrase kinds, languages or network numbers compare equal if and only if they hold the same bytes, words or number; ordering and hashing agree with equality. A clone equals its original and survives its drop. Entropies and seeds print as lowercase hex of their bytes, phrases as their text, phrase kinds as their word count (and only that text parses back), and error messages name the network and sizes they are about and say rightly whether a phrase was too short or too long.',
  ['inputs'], 'every pair of values of each type, every text and every number in an error',
  'No test compares two unequal values of any of these types or looks at what they print; an equality that skips some bytes passes every test.',
  [B, K + 'mnemonic.rs', K + 'network.rs', K + 'error.rs', K + 'key.rs'], [('PartialEq / Ord / Clone / Display of Entropy, Seed, Mnemonics, MnemonicString, Type', B), ('Network', K + 'network.rs'), ('Display for Error', K + 'error.rs')], ['bip39 value types', 'keychain::Network', 'keychain::Error'])
p('C33', "A user's own word list is joined, split and looked up unaltered",
  "A phrase is written in and read from any implementation of the Language trait the user brings exactly as that list says: words looked up by number and by text unaltered (no trimming, case or accent folding), joined and split with the list's own separator only, every word number taken from the list and every error of the list passed on. What it writes it reads back as the same word numbers and entropy.",
  ['inputs', 'configurations'], 'every word list, separator, phrase and altered word',
  'Tests use the built-in English list only, in which folding, trimming or a fixed separator cannot be seen.',
  [B], [('Mnemonics::to_string / from_string', B), ('MnemonicString::new', B), ('dictionary::Language', B), ('DefaultDictionary', B)], ['bip39::dictionary::Language', 'bip39::Mnemonics', 'bip39::MnemonicString'])
p('C34', "A user's own network gets and gives everything unaltered",
  "A manager made with key factories the user brings calls each of them only for its own network: on creation with the wallet's seed, on opening with exactly the stored bytes it once gave out, and in use with exactly the path, message and signature the caller passed. Its answers (keys, signatures, verdicts, stored bytes, errors) come back unaltered and its failures leave wallet and data unchanged. Own and built-in networks in one wallet do not disturb each other.",
  ['inputs', 'histories', 'fault_sequences'], 'every network number, argument, answer and failure of the key factories',
  'Tests never bring a network of their own; the built-in networks hide altered paths, cut answers and swallowed errors.',
  [K + 'manager.rs', K + 'keychain.rs', K + 'key.rs', K + 'key_factory.rs', K + 'data.rs'], [('KeychainManager::with_factories', K + 'manager.rs'), ('Keychain', K + 'keychain.rs'), ('Key', K + 'key.rs'), ('KeyFactory', K + 'key_factory.rs')], ['keychain::KeyFactory', 'keychain::Key', 'keychain::KeychainManager', 'keychain::Keychain'])
p('C35', 'Operations leave no trace outside and errors tell no secret',
  'No operation of the library or of its C interface, done or failed, writes anything anywhere but to its results: it prints nothing, creates or changes no file, opens no connection, starts nothing and leaves the environment as it was. No error message or debug text of an error contains a password, a seed, a stored key or more than one word of a phrase.',
  ['inputs', 'fault_sequences'], 'every operation with every way to fail',
  'Tests look at results only; a forgotten debug print or a helpful error message passes all of them.',
  [K + 'keychain.rs', K + 'manager.rs', K + 'error.rs', K + 'data.rs', B, C + 'error.rs', C + 'utils/panic.rs'], [('Error types and their From conversions', K + 'error.rs'), ('ErrorPtr', C + 'error.rs')], ['system calls', 'keychain::Error', 'C API'])
p('C36', 'A C program written against the generated header gets what Rust gets',
  'For every choice of networks, with and without backup, the C library builds, its generated header compiles as C and declares exactly the functions the shared library exports (all of them also in the static library), which are those of the chosen features. A C program that knows only that header can make every call, and every argument, result, error type, language and network number in it means what it means in the Rust operation of the same name.',
  ['configurations', 'inputs', 'histories'], 'every choice of features, every declared function and its arguments',
  'Nothing in the repository compiles a C program; a lost #[no_mangle], #[repr(C)] or feature gate is invisible to Rust callers.',
  [C + 'lib.rs', C + 'manager.rs', C + 'keychain_c.rs', C + 'backup.rs', C + 'key_path.rs', C + 'network.rs', C + 'error.rs', C + 'bitcoin.rs', C + 'cardano.rs', C + 'ethereum.rs', C + 'utils/data.rs', C + 'utils/string.rs'], [('extern "C" functions, repr(C) types', C), ('cfg(feature) attributes', C + 'lib.rs'), ('cbindgen', 'keychain-c/build.rs')], ['include/keychain.h', 'librust_keychain.a', 'librust_keychain.so'])
p('C37', 'Values written with the optional serialization come back equal',
  'With the optional serialization feature, every phrase size, phrase, dictionary error and hex error is written in a form from which an equal value is read again, in every format. In text formats the forms are those the type and variant names give and a phrase is its own text, so what was written once stays readable; what is no such value is refused. The feature changes nothing else: every other operation answers as it does without it.',
  ['inputs', 'configurations'], 'every value of the serializable types; every phrase text; every place a document can be damaged; with and without the feature',
  'No test enables the feature.',
  [B, 'bip39/src/util/hex.rs'], [('derive(Serialize, Deserialize) on Type, MnemonicString, dictionary::Error', B), ('derive on Error', 'bip39/src/util/hex.rs')], ['bip39 with feature generic-serialization'])
p('C38', 'A random source is used alone, in full and as it answers',
  'Encryption with a random source the caller brings takes its salt and its nonce from that source and from nothing else, as separate pieces of what it gave during this very call, whatever the bytes are and whatever the source does meanwhile (it may use the library); a source that fails makes no container and leaves the next call as good as the first. The library\'s own source fills the whole of every buffer, and nothing beside it, with what the system gave. Entropy generation takes exactly the bytes its generator wrote.',
  ['inputs', 'histories', 'fault_sequences'], 'every source, payload, password and buffer length; every call of the source that may fail; every operation inside the source',
  'Every test leaves the source to the system; what the code does with an answer can only be seen with a source that is known.',
  [K + 'crypt.rs', K + 'entropy.rs', B], [('encrypt', K + 'crypt.rs'), ('Entropy / OsEntropy', K + 'entropy.rs'), ('Entropy::generate', B)], ['keychain::crypt::encrypt', 'keychain::{Entropy, OsEntropy}', 'bip39::Entropy::generate'])
p('C39', 'Calls need memory in proportion to their input and keep none of it',
  'A call of the Rust interface (parsing, making, opening, extending, backing up, deriving, signing, verifying, printing) allocates at any moment at most a fixed amount (256 KiB) and a fixed multiple (64) of the bytes it is given, whatever numbers, lengths or nesting those bytes contain and whether it succeeds or fails. Once its result is dropped it has given back what it allocated: the same call made again, or a long history of other calls on the same or on new objects, does not make memory grow, apart from what is kept once and for all on first use. Managers, wallets and keys give everything back when they are dropped, also after failed operations.',
  ['inputs', 'histories'], 'every call, input, input size and history of calls',
  'No test looks at memory; a leak or an allocation sized by a number in the input shows only in a long-lived process or on a hostile input.',
  [K + 'manager.rs', K + 'data.rs', K + 'keychain.rs', K + 'key_path.rs', K + 'mnemonic.rs', K + 'crypt.rs', B, 'bip39/src/util/hex.rs', 'secp256k1_bip32/src/private.rs'], [('KeychainManager', K + 'manager.rs'), ('VersionedData', K + 'data.rs'), ('Keychain', K + 'keychain.rs'), ('GenericKeyPath::from', K + 'key_path.rs'), ('decrypt', K + 'crypt.rs')], ['the process\'s allocator during and after keychain, bip39 and secp256k1_bip32 calls'])
p('C40', 'What the user brings may panic or use the library itself at any call',
  'A key path, word list, random source, key factory or key that the user brings may panic, or may itself use the library, the same manager, wallet, keys and list included, at any moment at which an operation calls it. The operation around it and every operation inside it answer as they do alone, to any depth. A panic of theirs reaches the caller as it is and leaves every object as good as it was: all later operations with it answer as before.',
  ['fault_sequences', 'programs'], 'every operation, every call it makes of what the user brought, a panic or any other operation at that call',
  'No test brings anything that panics or calls back; a lock held, a value taken out or a buffer shared during such a call passes all of them.',
  [K + 'keychain.rs', K + 'manager.rs', K + 'key_path.rs', K + 'crypt.rs', NW + 'bitcoin/key.rs', NW + 'cardano/key.rs', NW + 'ethereum/key.rs', B], [('Keychain', K + 'keychain.rs'), ('KeychainManager', K + 'manager.rs'), ('encrypt', K + 'crypt.rs'), ('Mnemonics', B)], ['keychain::{Keychain, KeychainManager, Key, KeyFactory, KeyPath, Entropy}', 'bip39::dictionary::Language'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w', encoding='utf8') as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P), 'properties')
