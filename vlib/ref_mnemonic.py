'''Reference mnemonics and the digests of the standard word lists.'''

import unicodedata

from Cryptodome.Hash import SHA256, SHA512
from Cryptodome.Protocol.KDF import PBKDF2

from vlib import ref_hash

# SHA-256 of the normalised lower-case words joined by line feeds
DIGESTS = {
    'english.txt': (2048, '187db04a869dd9bc7be80d21a86497d692c0db6abd3aa8cb6be5d618ff757fae'),
    'spanish.txt': (2048, '2f06d28020d49115a2e502fb6042aaa593e90773edb947685482d05ee2af6a03'),
    'japanese.txt': (2048, 'a3c2aa5c689341519e8a579e28d2956910313e372b04cf0f31baef40dc44d69c'),
    'chinese_simplified.txt':
        (2048, '106cc8387ac3fc7d44ca1072e30a0b27ed017b1d377501bb909c2833ef60c186'),
    'electrum_old.txt': (1626, 'b329cea782bdd8b1de49bbb9fbdef9e8230e15eb08f0d7952613992246c38f96'),
}
LANGUAGES = [n for n, (count, _d) in sorted(DIGESTS.items()) if count == 2048]


def list_digest(words):
    return SHA256.new('\n'.join(words).encode()).hexdigest()


def nfkd(text):
    return unicodedata.normalize('NFKD', text)


def bip39_words(text):
    return nfkd(text).lower().split()


def bip39_indices(entropy):
    cs_bits = len(entropy) // 4
    bits = ''.join(f'{b:08b}' for b in entropy)
    bits += ''.join(f'{b:08b}' for b in ref_hash.sha256(entropy))[:cs_bits]
    return [int(bits[n:n + 11], 2) for n in range(0, len(bits), 11)]


def bip39_decode(indices):
    '''The entropy, or None if the count or checksum is wrong.'''
    if len(indices) not in (12, 15, 18, 21, 24):
        return None
    bits = ''.join(f'{i:011b}' for i in indices)
    size = len(bits) * 32 // 33
    entropy = bytes(int(bits[n:n + 8], 2) for n in range(0, size, 8))
    return entropy if bip39_indices(entropy) == list(indices) else None


def bip39_seed(text, passphrase):
    return PBKDF2(' '.join(bip39_words(text)).encode(), b'mnemonic' + nfkd(passphrase).encode(), 64,
                  count=2048, hmac_hash_module=SHA512)


# Electrum old style.  1626 words; three encode 32 bits.

def old_indices(seed):
    n = 1626
    result = []
    for pos in range(0, len(seed), 4):
        x = int.from_bytes(seed[pos:pos + 4], 'big')
        w1 = x % n
        w2 = (x // n + w1) % n
        w3 = (x // n // n + w2) % n
        result += [w1, w2, w3]
    return result


def old_decode(indices):
    '''The seed, or None.'''
    n = 1626
    if len(indices) not in (12, 24):
        return None
    out = b''
    for pos in range(0, len(indices), 3):
        w1, w2, w3 = indices[pos:pos + 3]
        x = w1 + n * ((w2 - w1) % n) + n * n * ((w3 - w2) % n)
        if x >> 32:
            return None
        out += x.to_bytes(4, 'big')
    return out
