"""Author's source for properties.jsonl: python3 tools/gen_properties.py rewrites it."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': ['bitcoinx/' + f for f in files],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': 'bitcoinx/' + w} for n, w in mech],
            'observe_at': list(observe),
            'hook_needed': hook,
        }})


prop('C01', 'Transactions survive serialisation exactly and truncated ones are refused',
     "Every transaction whose fields are in wire range serialises to exactly the Bitcoin wire format and parses back, "
     "from bytes, hex or a stream of consecutive transactions, to an equal transaction while consuming exactly its own bytes. "
     "Its reported size equals the length of that serialisation and its reported hash is the double SHA-256 of it (shown byte-reversed in hex). "
     "Wire bytes that are cut short anywhere, or that declare a length beyond the data, are refused with struct.error and never yield a partial transaction.",
     ['inputs'], 'all versions, input and output lists (including empty and >252 entries), scripts of every length class, values, sequences, lock times; every cut point',
     'tests parse four fixed transactions; varint boundaries in counts and script lengths, extreme field values and arbitrary cut points are not reached',
     ['tx.py', 'packing.py'], [('Tx/TxInput/TxOutput read, to_bytes, size', 'tx.py'), ('read_varbytes, read_list, pack_list', 'packing.py')],
     observe=['Tx.from_bytes/from_hex/read', 'Tx.to_bytes/to_hex/size/hash/hex_hash', 'TxInput and TxOutput likewise'])

prop('C02', 'Signature hashes commit to exactly what the sighash flags select',
     "For every transaction, input index, spent value, script code and sighash flags, the signature hash equals the double SHA-256 of the replay-protected (BIP143) preimage, "
     "with ALL|FORKID assumed when no flags are given; so changing any selected field changes it and changing any unselected field does not. "
     "An input index out of range raises IndexError, a negative value raises ValueError and flags that are not a sighash object raise TypeError. "
     "Computing a signature hash never alters the transaction.",
     ['inputs'], 'all transactions, input indices, values 0..2^63-1, script codes and all sighash values (base, ANYONE_CAN_PAY, FORKID, unknown bits)',
     'tests compare one fixed transaction with recorded digests for a handful of flags; index >= number of outputs, unusual base types and large scripts are not covered',
     ['tx.py', 'signature.py'], [('Tx.signature_hash', 'tx.py'), ('SigHash.base / anyone_can_pay', 'signature.py')],
     observe=['Tx.signature_hash'])

prop('C03', 'Finality, coinbase status and output totals follow the consensus rules',
     "A transaction is reported final for a block height and time exactly when its lock time is zero, or is strictly less than the height (lock times below 500,000,000) or the time (other lock times), "
     "or every input has the maximum sequence number. It is reported as coinbase exactly when it has a single input and that input spends the null outpoint (zero hash, index 2^32-1). "
     "The total output value is the exact sum of the output values, and none of these queries fails for any transaction that can be parsed.",
     ['inputs'], 'all lock times, sequences, heights and times, numbers of inputs (including none) and outpoints',
     'tests sample a dozen lock time / height / time combinations on one transaction',
     ['tx.py'], [('Tx.is_final_for_block, are_inputs_final, is_coinbase, total_output_value', 'tx.py')],
     observe=['Tx.is_final_for_block', 'Tx.are_inputs_final', 'Tx.is_coinbase', 'TxInput.is_coinbase', 'Tx.total_output_value'])

prop('C04', 'The JSON view of any transaction is total and faithful',
     "For every transaction that can be parsed, every combination of JSON display flags and every coin, the JSON view is produced without error, can be encoded as JSON and states the transaction's actual fields, scripts (hex and readable form), coinbase text and hash. "
     "Optional items - input and output indices, size, lock time meaning, and the output script's type with its address and public key - appear exactly when their flag is given, and agree with the values the library reports for them elsewhere. "
     "Readable signature hash flags appear only for pushes in input scripts that are valid signatures.",
     ['inputs', 'configurations'], 'all parseable transactions (arbitrary script bytes), all 64 flag combinations, all four coins',
     'tests render a handful of fixed transactions with a few flag values; arbitrary scripts (P2SH, multisig, truncated, unknown) in outputs are not rendered',
     ['tx.py', 'script.py', 'consts.py', 'address.py'], [('to_json of Tx, TxInput, TxOutput; locktime_description', 'tx.py'), ('Script.to_json', 'script.py'), ('KIND of output classes', 'address.py')],
     observe=['Tx.to_json', 'TxInput.to_json', 'TxOutput.to_json', 'Script.to_json'])

prop('C05', 'Binary integer, varint, bytes and list codecs are exact inverses',
     "Every fixed-width pack function is undone by its unpack, unpack-from-offset and stream-read counterparts over its whole range, in the stated byte order, and values outside the range are refused. "
     "A variable-length integer is encoded in the shortest form whose length is the one predicted, and reading variable-length integers, byte strings and lists from a stream returns the packed values and consumes exactly their bytes. "
     "Reading from a stream that ends early, or whose declared length exceeds what it holds, raises struct.error.",
     ['inputs'], 'all integers around every width boundary, byte strings and lists of every length class, arbitrary stream continuations and cut points',
     'tests use a table of a few values per function',
     ['packing.py', 'misc.py'], [('pack_*, unpack_*, read_*', 'packing.py'), ('int_to_be_bytes, int_to_le_bytes', 'misc.py')],
     observe=['pack_*', 'unpack_*', 'unpack_*_from', 'read_*', 'varint_len', 'be_bytes_to_int', 'le_bytes_to_int', 'int_to_be_bytes', 'int_to_le_bytes'])

prop('C06', 'Base58 and Base58Check are bijective and detect every corruption',
     "Base58 encoding of any non-empty bytes decodes to the same bytes, every non-empty string over the Base58 alphabet decodes to bytes that encode back to it, and leading zero bytes correspond one to one with leading '1's. "
     "Base58Check decoding accepts a string exactly when its last four bytes are the double-SHA-256 checksum of the rest, returns that rest unaltered, and so refuses altered, truncated or extended strings. "
     "Text with any character outside the alphabet, empty text and bad checksums raise Base58Error, and a non-string raises TypeError.",
     ['inputs'], 'all byte strings and all text, including leading zeros, non-ASCII characters and every single-character corruption',
     'tests use a few fixed strings',
     ['base58.py'], [('base58_encode/decode, *_check', 'base58.py')],
     observe=['base58_encode', 'base58_decode', 'base58_encode_check', 'base58_decode_check', 'is_minikey'])

prop('C07', 'Cash addresses decode exactly when valid under the CashAddr specification',
     "Decoding a cash address succeeds exactly when the text is a well-formed single-case ASCII CashAddr string with a valid checksum, canonical zero padding, a known type (public key or script) and a hash whose length (20 to 64 bytes) matches its version byte, and it then returns the encoded prefix, type and hash. "
     "Every other string - including any change of one to several characters of a valid one and mixed case - raises ValueError, and a non-string raises TypeError.",
     ['inputs'], 'all prefixes, types, all eight hash sizes, all case patterns, corruptions, paddings and version bytes; arbitrary text',
     'tests check three addresses per type and ten mangled strings',
     ['cashaddr.py'], [('decode, _decode_payload, _polymod, _convertbits', 'cashaddr.py')],
     observe=['bitcoinx.cashaddr.decode', 'Address.from_string'])

prop('C08', 'Address text, hash, script and coin stay in correspondence',
     "For every coin and 20-byte hash, a P2PKH or P2SH address prints to Base58Check text that parses on that coin to an equal address of the same kind with the same hash, and its locking script is the standard script for that hash and is classified back to the same address. "
     "The coin's CashAddr form of the same hash, upper or lower case and with or without its prefix, parses to the same address. "
     "Text of another network, of the wrong length, with a bad checksum or otherwise malformed raises ValueError, as do hashes of the wrong length.",
     ['inputs', 'configurations'], 'all 20-byte hashes, kinds, coins, spellings; arbitrary and near-miss text',
     'tests use a fixed table of addresses per coin',
     ['address.py', 'cashaddr.py', 'base58.py', 'coin.py'], [('Address.from_string, P2PKH_Address, P2SH_Address', 'address.py'), ('version bytes and cashaddr prefixes', 'coin.py')],
     observe=['Address.from_string', 'to_string', 'hash160', 'to_script', 'classify_output_script', 'PublicKey.to_address'])

prop('C09', 'Script building and parsing are inverse and truncation is detected',
     "Pushing any data or integer yields the shortest push encoding, and parsing scripts assembled from pushes, integers, opcodes and other scripts, one by one or in bulk, yields exactly those items in order; integers on the stack convert to and from minimal sign-magnitude bytes without loss. "
     "Parsing arbitrary bytes agrees with the Bitcoin script grammar, and a script whose last push runs past its end yields its complete operations and then raises the truncated-script error. "
     "The push-and-drop helpers leave the stack unchanged, and scripts compare and hash by their bytes.",
     ['inputs', 'programs'], 'all data lengths around every push-opcode boundary (0, 1, 75/76, 255/256, 65535/65536), all integers, all operation sequences, all byte strings',
     'tests use chosen lengths and a few dozen scripts',
     ['script.py'], [('push_item, push_int, item_to_int, push_and_drop_items, Script.ops, <<, push_many', 'script.py')],
     observe=['push_item', 'push_int', 'item_to_int', 'push_and_drop_item(s)', 'Script.ops', 'Script <<', 'Script.push_many'])

prop('C10', 'The ASM text of a script is faithful and reads back to the same script',
     "The ASM text of any script lists its operations in order - opcode names, pushes of at most four bytes as decimal numbers, longer pushes as hex - with truncated scripts shown as an error marker, and with a sighash suffix only, when asked, on pushes that are valid signatures. "
     "For every script made of named opcodes and minimally encoded pushes (data of at most four bytes being a minimally encoded number), reading its ASM text back yields the identical script, whatever the length or digits of the pushed data, save only a five-byte push whose hex is also a ten-digit number in script range, which the format cannot tell apart. "
     "Text that is not valid ASM raises ScriptError.",
     ['inputs', 'programs'], 'all scripts (for rendering), all scripts of named opcodes and canonical pushes (for reading back), all text (for refusal)',
     'tests round trip one ASM string',
     ['script.py', 'signature.py'], [('Script.to_asm, op_to_asm_word, from_asm, asm_word_to_bytes', 'script.py')],
     observe=['Script.to_asm', 'Script.op_to_asm_word', 'Script.from_asm', 'Script.asm_word_to_bytes'])

prop('C11', 'Output scripts are classified soundly, completely and without failure',
     "Every standard locking script the library builds (pay to public key, to public key hash, to script hash, bare multisig with any keys and threshold, OP_RETURN data) is classified as that kind with the same keys, hash and threshold and regenerates the identical script. "
     "Any byte string whatever is classified without error, as a standard kind only if - after dropping operations with no effect, namely NOPs and data pushes that are dropped at once - it has that kind's shape with valid contents, and as unknown otherwise. "
     "Inserting such ineffective operations anywhere never changes the classification.",
     ['inputs', 'programs'], 'all key sets, thresholds, hashes; all byte strings, near-miss templates (wrong counts, invalid keys, trailing or missing operations, truncation); all coins',
     'tests classify a few dozen fixed scripts',
     ['script.py', 'address.py'], [('classify_output_script, Script.to_template', 'script.py'), ('output classes', 'address.py')],
     observe=['classify_output_script', 'Script.to_template', 'to_script of output classes'])

prop('C12', 'Key encodings round trip and invalid keys are refused',
     "A private key's bytes, integer, hex and WIF forms (any coin, compressed or not) all lead back to the same secret, and WIF also to the same compression and a coin with the same WIF version; a public key's compressed, uncompressed, hex and point forms lead back to the same curve point with compression given by the form. "
     "Private keys are accepted exactly for secrets from 1 to the curve order minus 1, public keys exactly for valid points in 33- or 65-byte form, minikeys exactly when their check hash starts with zero, and everything else is refused with an error. "
     "Random generation always yields a valid key, skipping out-of-range draws.",
     ['inputs'], 'all 32-byte secrets including leading zeros and both ends of the range, all coins, all candidate encodings including corrupted ones',
     'tests use random keys and a few fixed encodings; range edges and corrupted forms are sampled once or not at all',
     ['keys.py', 'base58.py', 'coin.py'], [('PrivateKey and PublicKey constructors and from_*/to_* methods', 'keys.py')],
     observe=['PrivateKey.*', 'PublicKey.*', 'is_minikey'])

prop('C13', 'Key arithmetic is the secp256k1 group law and shared secrets agree',
     "A private key's public key is the secret times the generator, and adding to, multiplying and combining keys gives exactly the secp256k1 result, identically whether done on the private or the public side, and preserves compression and coin. "
     "The two parties of a key exchange, with any message or none, always derive the same shared secret point. "
     "Operands not below the curve order, multiplication by zero and results that are zero or the point at infinity are refused with ValueError, and the operands are always left unchanged.",
     ['inputs'], 'all keys, tweaks (including 0, 1, order-1, order, negations) and messages',
     'tests check a few random keys against themselves',
     ['keys.py'], [('add, multiply, combine_keys, shared_secret, ecdh_shared_secret', 'keys.py')],
     observe=['PrivateKey.add/multiply/public_key/shared_secret/ecdh_shared_secret', 'PublicKey.add/multiply/combine_keys'])

prop('C14', 'ECDSA signatures are deterministic, low-S, verify, recover and resist tampering',
     "Signing any message hash with any key gives exactly the RFC6979 deterministic low-S signature, in DER form and in recoverable form. "
     "It verifies under the signer's public key and no other key or message, the signer's public key is recovered from the recoverable form, and a signature with any altered byte or a high S value never verifies. "
     "Malformed signatures raise InvalidSignatureError, and hashes that are not 32 bytes are refused.",
     ['inputs'], 'all keys, messages, hash functions, and all alterations of signatures and messages',
     'tests sign a few messages; leading-zero r and s values, alterations and malformed encodings are barely sampled',
     ['keys.py', 'signature.py'], [('sign, sign_recoverable, verify_*, from_recoverable_signature', 'keys.py'), ('sign_der, sign_recoverable, verify_*', 'signature.py')],
     observe=['PrivateKey.sign/sign_recoverable', 'PublicKey.verify_der_signature/verify_recoverable_signature/from_recoverable_signature'])

prop('C15', 'Signed text messages verify for their signer and address only',
     "A message signed with any key, as text or bytes and in binary or base64 form, verifies with that key and with both its compressed and uncompressed addresses on any network, recovers that key, and fails for every other key, address or message. "
     "The signature is the recoverable signature of the Bitcoin-prefixed message with a header byte stating recovery id and compression. "
     "Any malformed signature - bad length, header, base64 or non-ASCII text - makes the address check return False and the other operations raise InvalidSignatureError, never anything else.",
     ['inputs'], 'all keys, messages of every varint length class, encodings, coins and signature alterations; arbitrary signature text',
     'tests sign one or two fixed messages',
     ['keys.py', 'signature.py'], [('sign_message, verify_message, verify_message_and_address, from_signed_message', 'keys.py'), ('to_recoverable_signature, to_message_signature', 'signature.py')],
     observe=['PrivateKey.sign_message(_to_base64)', 'PublicKey.verify_message', 'PublicKey.verify_message_and_address', 'PublicKey.from_signed_message'])

prop('C16', 'Encrypted messages decrypt for the recipient and any tampering is detected',
     "Any message encrypted to a public key, compressed or not, with any magic prefix, in binary or base64 form, decrypts with the matching private key to exactly that message, and the ciphertext follows the ECIES (BIE1) format, so independent implementations interoperate in both directions. "
     "Decrypting with another key, another magic, or after any change, truncation or extension of the ciphertext, raises DecryptionError, as does any other malformed input, binary or text. "
     "Decryption never returns data that was not authenticated.",
     ['inputs'], 'all keys, message lengths (including empty and every block alignment), magics and alterations; arbitrary input text',
     'tests encrypt a few messages and try a few fixed corruptions',
     ['keys.py', 'aes.py'], [('encrypt_message, decrypt_message', 'keys.py'), ('aes_encrypt_with_iv, aes_decrypt_with_iv', 'aes.py')],
     observe=['PublicKey.encrypt_message(_to_base64)', 'PrivateKey.decrypt_message'])

prop('C17', 'AES-CBC encryption is standard and padding is strictly checked on every backend',
     "Encrypting any data under any 16-, 24- or 32-byte key and IV gives the standard AES-CBC ciphertext with PKCS#7 padding, and decrypting it returns the data, identically whether or not the optional native cipher library is installed. "
     "Decrypting data whose length is not a positive multiple of 16, or whose decrypted padding is not valid PKCS#7, raises an exception and returns nothing.",
     ['inputs', 'configurations'], 'all keys, IVs, data lengths across block boundaries, all padding bytes; with and without the native library',
     'tests cover one bad-padding case; the pure Python backend is never exercised when the native one is installed',
     ['aes.py'], [('aes_encrypt_with_iv, aes_decrypt_with_iv, padding', 'aes.py')],
     observe=['bitcoinx.aes.aes_encrypt_with_iv', 'bitcoinx.aes.aes_decrypt_with_iv'])

prop('C18', 'BIP32 child derivation matches the standard on private and public sides',
     "Master keys from seeds and children along any path have exactly the secret, point, chain code, depth, index and parent fingerprint that BIP32 defines, on the private side for all indices and on the public side for non-hardened ones; deriving then taking the public key equals taking the public key then deriving. "
     "Hardened derivation from a public key, and any index outside the 32-bit range, is refused with ValueError. "
     "Safe derivation returns the child at the first index, from the requested one on, whose derivation is valid, and refuses when none remains in its range.",
     ['inputs', 'fault_sequences'], 'all seeds, coins, paths of indices (biased to range ends) up to depth 255, keys with leading zero bytes, and injected invalid derivations',
     'tests follow the published vectors; leading-zero intermediate values, range ends and invalid derivations (probability 2^-127) are not reached',
     ['bip32.py', 'keys.py', 'hashes.py'], [('BIP32PrivateKey.child, BIP32PublicKey.child, child_safe, from_seed', 'bip32.py')],
     observe=['BIP32PrivateKey.from_seed/child/child_safe/public_key/fingerprint/identifier/derivation', 'BIP32PublicKey likewise'])

prop('C19', 'Extended key strings round trip and invalid ones are refused',
     "Any extended private or public key, at any depth, index, chain code and coin, prints to the 78-byte BIP32 Base58Check string and parses back to an equal key with equal derivation data and the same kind; any valid extended key string prints back to itself. "
     "A string with a bad checksum, wrong length, unknown version bytes, a wrong key prefix byte, a secret out of range or an invalid point raises ValueError.",
     ['inputs'], 'all field values (depth 0-255, all 32-bit indices, any chain code and fingerprint), all coins; field-wise corruptions with recomputed checksums',
     'tests use the published vectors and a few malformed strings',
     ['bip32.py', 'coin.py', 'base58.py'], [('bip32_key_from_string, to_extended_key_string', 'bip32.py'), ('Coin.lookup_xver_bytes', 'coin.py')],
     observe=['bip32_key_from_string', 'to_extended_key_string'])

prop('C20', 'Derivation path text and index lists convert both ways exactly',
     "Building a path string from any list of 32-bit indices and decomposing it returns the same list, hardened indices being exactly those marked with an apostrophe. "
     "A string is accepted exactly when it is 'm' followed by zero or more '/' separated decimal numbers below 2^31, each with an optional apostrophe; every other string, including ones with stray whitespace or newlines, is refused with ValueError, and the validity test agrees. "
     "Index lists with non-integers raise TypeError and out-of-range values ValueError.",
     ['inputs'], 'all index lists; all text, in particular near-valid paths',
     'tests list a dozen good and bad strings',
     ['bip32.py'], [('bip32_decompose_chain_string, bip32_build_chain_string, bip32_is_valid_chain_string, bip32_validate_derivation', 'bip32.py')],
     observe=['bip32_decompose_chain_string', 'bip32_build_chain_string', 'bip32_is_valid_chain_string', 'bip32_validate_derivation'])

prop('C21', 'BIP39 mnemonics, seeds and word lists follow the standard in any environment',
     "Generated mnemonics of every supported strength have the right number of words, encode their entropy plus checksum as BIP39 defines, and are valid; a mnemonic is reported valid exactly when its word count is supported and its checksum is right, irrespective of letter case, Unicode composition and spacing, and unknown words are reported as such. "
     "The seed equals PBKDF2-HMAC-SHA512 of the normalised mnemonic and passphrase, so equivalent spellings give the same seed. "
     "The built-in word lists are the same 2048 distinct normalised words whatever the process's locale, and bad list sizes or strengths raise ValueError.",
     ['inputs', 'configurations'], 'all entropies of the five strengths, all four built-in word lists, arbitrary word sequences, spellings and passphrases; process locales',
     'tests use the published vectors and random generation; near-valid checksums, spellings and non-UTF-8 locales are not covered',
     ['mnemonic.py', 'misc.py', 'hashes.py'], [('BIP39Mnemonic.generate/is_valid/to_seed/normalize', 'mnemonic.py'), ('Wordlists', 'mnemonic.py')],
     observe=['BIP39Mnemonic.*', 'Wordlists.bip39_wordlist'])

prop('C22', 'Electrum seeds convert losslessly and generated seeds are valid for their type',
     "Every 128- or 256-bit hex seed converts to a 12- or 24-word old-style mnemonic that converts back to the same seed, in any letter case and spacing; word sequences are valid old-style mnemonics exactly when they decode to 32-bit groups, and encode back to the same words. "
     "A newly generated mnemonic uses only the given list, has the number of words needed for the requested entropy, carries the requested version prefix and, unless allowed, is not also a valid old seed. "
     "The version test of a mnemonic is the prefix of HMAC-SHA512 over its normalised text, and unsupported lengths, counts, strengths or short lists raise ValueError.",
     ['inputs'], 'all hex seeds, word sequences, prefixes, strengths, list sizes from 2048 up and entropy draws',
     'tests generate a handful of seeds',
     ['mnemonic.py'], [('ElectrumMnemonic.*', 'mnemonic.py'), ('_random_integer', 'mnemonic.py')],
     observe=['ElectrumMnemonic.*', 'Wordlists.original_electrum_wordlist'])

prop('C23', 'Compact difficulty bits, targets and work convert consistently',
     "Every canonical compact bits value converts to the target it denotes and back to itself, and every target from 0 to 2^256-1 converts to the canonical bits of the greatest representable target not exceeding it; conversions preserve order. "
     "Non-canonical or negative bits, bits beyond 0x2100ffff, and targets out of range raise ValueError. "
     "The work of a header is 2^256 divided by target plus one, rounded down, and its difficulty is the ratio of the mainnet maximum target to its target.",
     ['inputs'], 'all 32-bit bits values and all 256-bit targets, biased to byte-length and sign-bit boundaries',
     'tests use about twenty values',
     ['work.py', 'coin.py'], [('bits_to_target, target_to_bits, bits_to_work', 'work.py'), ('Header.work/target/difficulty', 'coin.py')],
     observe=['bits_to_target', 'target_to_bits', 'bits_to_work', 'Header.work/target/difficulty', 'Coin.header_work/bits_to_difficulty'])

prop('C24', 'Required difficulty follows each network rule on any chain history',
     "For any chain of headers with arbitrary timestamps and difficulties, the bits required of the next header equal those of the network's consensus rules: on mainnet the fortnightly retarget below height 478,558, the emergency adjustment up to height 504,031 and the 144-block rule above it; on test networks the retarget with the 20-minute minimum-difficulty exception up to the network's switch height and the 144-block rule above it. "
     "The result depends only on the new header's own ancestors, its height and, on test networks, its timestamp. "
     "It is always canonical and never easier than the network limit.",
     ['inputs', 'histories'], 'all histories of timestamps (including decreasing and equal ones) and bits around every activation height and retarget boundary, on base and forked chains; mainnet, testnet, scaling testnet, regtest',
     'tests replay the actual mainnet and testnet histories: clamps, median ties, time reversals and forks that history never had are not reached',
     ['work.py', 'chain.py', 'coin.py'], [('required_bits_mainnet, required_bits_testnet, required_bits_scaling_testnet and helpers', 'work.py'), ('Headers.required_bits, median_time_past, chainwork_range', 'chain.py')],
     observe=['Headers.required_bits'])

prop('C25', 'Only valid headers are accepted and a refused header leaves no trace',
     "Connecting a header succeeds exactly when its previous header is known and it is either already stored or has exactly the bits required on its own ancestry and a hash not exceeding its target. "
     "Otherwise it is refused - missing-header for an unknown parent, incorrect-bits (reporting the required bits) for wrong bits, insufficient-work for a hash above the target - and the stored headers, chains, tips, work and file contents stay exactly as before. "
     "Re-submitting a stored header returns it and its chain and changes nothing.",
     ['histories', 'inputs'], 'all sequences of valid, duplicate, orphan, wrong-bits and insufficient-work headers on any tree of chains',
     'tests connect two real headers and one of each bad kind',
     ['chain.py', 'coin.py'], [('Headers.connect', 'chain.py')],
     observe=['Headers.connect', 'Headers.lookup', 'len(Headers)', 'Headers.chains'])

prop('C26', 'Header chains mirror the block tree through any history of connects',
     "After any sequence of connects the chains partition the stored headers as documented: a header on a chain's tip extends it, any other creates a new chain whose parent is the chain of its previous header; lookup by hash and by height returns the right header, height and chain, even if hashes share prefixes, whatever the cache size. "
     "Heights, tips, cumulative work at every height, the chain with most work (of equals, the one created first), common ancestors of chains and median times agree with the tree of headers. "
     "Absent heights and hashes raise the missing-header error, without undue delay whatever the hash.",
     ['histories'], 'all trees of headers and orders of arrival, checkpoint heights, cache sizes, and hashes with colliding prefixes',
     'tests build at most two chains with ten headers and the default cache',
     ['chain.py'], [('Headers.lookup, _read_header, Chain, common_chain_and_height, longest_chain', 'chain.py')],
     state=[('chains', 'the list of chains with parent, first height, tip and work', 'bitcoinx/chain.py'), ('cache and short-hash index', 'hash to header index', 'bitcoinx/chain.py')],
     observe=['Headers.lookup/chains/longest_chain/header_at_height/raw_header_at_height/chainwork_to_height/chainwork_range/median_time_past', 'Chain.*'])

prop('C27', 'Header files reopen to the same state and have the documented layout',
     "After any history of connects and of setting headers up to the checkpoint, reopening the header file with the same checkpoint gives the same headers, chains, tips, heights and work, and further connects continue from there identically to a session that was never closed. "
     "The file holds the documented layout: an 8-byte preamble with its own size, version and header count, then 80-byte headers in order of arrival. "
     "A file that is absent, empty, too short, of another version or for another checkpoint is replaced by a fresh one, headers never set raise the missing-header error, and setting a header beyond the checkpoint raises ValueError.",
     ['histories', 'configurations'], 'all histories with reopen points, checkpoint heights, file growth across its allocation step, and malformed existing files',
     'tests reopen one or two fixed histories',
     ['chain.py', 'util.py'], [('_HeaderStorage, Headers.from_file, set_one, _read_headers', 'chain.py'), ('map_file', 'util.py')],
     observe=['Headers.from_file', 'Headers.set_one', 'Headers.flush', 'the file itself'])

prop('C28', 'A crash while headers are being stored never loses or corrupts the chain file',
     "If the process dies at any point while the header file is created or a header is connected, reopening the file with the same checkpoint succeeds and gives exactly the headers whose connection had completed, plus possibly the one in progress, with the chains, work and lookups these imply. "
     "Connecting can then simply continue.",
     ['crash_points', 'histories'], 'every point between executed operations during creation and connects (including file growth), over all connect histories; the file as the operating system holds it at that point',
     'no test interrupts an operation',
     ['chain.py', 'util.py'], [('_HeaderStorage._set_raw_header, _create_file, open_or_create', 'chain.py')],
     observe=['Headers.from_file on the file as left by the crash'])

prop('C29', 'Equal objects hash alike and equality means the same key, script or address',
     "Private keys, public keys, addresses, output descriptions, scripts and signatures are equal exactly when they denote the same secret, point, kind and hash, keys and threshold, or bytes - regardless of compression, coin or how they were built - and equality is reflexive, symmetric and safe against unrelated objects. "
     "Objects that compare equal have equal hashes, so they can replace each other in sets and dictionaries.",
     ['inputs'], 'all pairs of values built by different routes (compressed or not, plain or extended keys, different coins, bytes-like objects)',
     'tests check single instances',
     ['keys.py', 'address.py', 'script.py', 'signature.py'], [('__eq__ and __hash__', 'keys.py'), ('__eq__ and __hash__', 'address.py'), ('__eq__ and __hash__', 'script.py')],
     observe=['== and hash() on PrivateKey, PublicKey, BIP32 keys, addresses, outputs, Script, Signature'])

prop('C30', 'Hash functions and hash text conversions are the standard ones',
     "For every input, SHA-1, SHA-256, SHA-512, RIPEMD-160, double SHA-256, hash160 (RIPEMD-160 of SHA-256) and HMAC-SHA512 (whole or in halves) equal the standard functions. "
     "Displayed hash hex is the byte-reversed hex and converts back to the same hash, and a hash's value is its little-endian integer. "
     "A block header's hash, fields, previous hash, timestamp, bits and work read from raw bytes are those of the 80-byte header format.",
     ['inputs'], 'all inputs of every length around block boundaries; all 80-byte headers',
     'tests use a few fixed values',
     ['hashes.py', 'coin.py', 'packing.py'], [('hash functions', 'hashes.py'), ('Coin.deserialized_header and header_* accessors', 'coin.py')],
     observe=['sha1', 'sha256', 'sha512', 'double_sha256', 'ripemd160', 'hash160', 'hmac_*', 'hash_to_hex_str', 'hex_str_to_hash', 'hash_to_value', 'Coin.deserialized_header', 'Coin.header_*'])

prop('C31', 'Signature objects and DER/compact conversions are exact and strict',
     "Converting a compact signature to DER and back is lossless for every r and s below the curve order, DER output is the canonical encoding, and compact input of the wrong size or with r or s out of range, like any DER input that is not strictly valid, raises InvalidSignatureError. "
     "A signature object exists only for strictly valid DER plus one sighash byte (or the missing marker) and reports exactly its DER part, r and s (as zero where out of range), sighash byte, hex and text. "
     "Sighash text names exactly the flags set and is different for different sighash bytes.",
     ['inputs'], 'all 64-byte compact values, DER encodings of all integer lengths, structural corruptions of DER, all 256 sighash bytes',
     'tests use two fixed signatures',
     ['signature.py'], [('der_signature_to_compact, compact_signature_to_der, Signature, SigHash', 'signature.py')],
     observe=['der_signature_to_compact', 'compact_signature_to_der', 'Signature.*', 'SigHash.*'])

prop('C32', 'Answers depend on the arguments alone, not on earlier or concurrent calls',
     "Every function and method that codes, decodes, hashes, derives, signs, verifies or classifies gives, for given arguments and object, the answer it gives alone in a fresh process (any randomness asked for apart), whatever calls (failed ones included) came before, in whatever order and however often, and whatever calls run at the same time in other threads on the same or other objects. "
     "Calls leave their arguments and the objects they are made on unchanged, and later calls, or a caller changing an answer it was given, do not change any other answer.",
     ['histories', 'schedules', 'inputs'], 'all sequences of calls over near-equal arguments, on fresh and shared objects, in any order, and all interleavings of two or three threads of calls',
     'tests make each call once or twice in one fixed order in one thread; a stale cache, a shared buffer or a half-filled lazy attribute needs a particular earlier or concurrent call',
     ['keys.py', 'bip32.py', 'script.py', 'tx.py', 'base58.py', 'hashes.py', 'mnemonic.py', 'address.py', 'misc.py', 'util.py'],
     [('PublicKey, PrivateKey and the shared secp256k1 context', 'keys.py'), ('cachedproperty', 'util.py'), ('Wordlists', 'mnemonic.py')],
     observe=['every public function and method without own storage, called in generated orders and schedules'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
