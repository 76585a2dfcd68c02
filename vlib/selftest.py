'''Self-tests of the references against published vectors (none involve the code under test).'''


def main():
    from vlib import core
    core.setup_process()
    from vlib import ref_ec, ref_hash, ref_text, ref_script, ref_tx
    assert ref_ec.mul_g(2) == (
        0xc6047f9441ed7d6d3045406e95c07cd85c778e4b8cef3ca7abac09b95c709ee5,
        0x1ae168fea63dc339a3c58419466ceaeef7f632653266d0e1236431a950cfe52a)
    assert ref_ec.mul_g(ref_ec.N) is None
    assert ref_ec.mul(ref_ec.N - 1, ref_ec.G) == ref_ec.neg(ref_ec.G)
    assert ref_hash.ripemd160(b'') == bytes.fromhex('9c1185a5c5e9fc54612808977ee8f548b2258d31')
    assert ref_hash.ripemd160(b'message digest') == bytes.fromhex(
        '5d0689ef49d2fae572b881b123a85ffa21595f36')
    assert ref_hash.ripemd160(b'1234567890' * 8) == bytes.fromhex(
        '9b752e45573d4b39f4dbd3323cab82bf63326bfb')
    # RFC 4231 test case 2
    assert ref_hash.hmac_sha512(b'Jefe', b'what do ya want for nothing?').hex().startswith(
        '164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd610270cd7ea250554')
    # RFC 6979 on secp256k1 (well-known vector: key 1, 'Satoshi Nakamoto')
    h = ref_hash.sha256(b'Satoshi Nakamoto')
    r, s, recid = ref_ec.sign(1, h)
    assert (r, s) == (0x934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8,
                      0x2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5)
    assert ref_ec.verify(ref_ec.G, h, r, s)
    assert ref_ec.recover(h, r, s, recid) == ref_ec.G
    assert ref_ec.parse_der(ref_ec.der(r, s)) == (r, s)
    assert ref_text.b58_encode(b'Hello World!') == '2NEpo7TZRRrLZSi2U'
    assert ref_text.b58_decode('11233QC4') == bytes.fromhex('0000287fb4cd')
    # From the CashAddr specification
    assert ref_text.cash_encode('bitcoincash', 0, bytes.fromhex(
        'f5bf48b397dae70be82b3cca4793f8eb2b6cdac9')) == \
        'bitcoincash:qr6m7j9njldwwzlg9v7v53unlr4jkmx6eylep8ekg2'
    assert ref_text.cash_decode('bchtest:pr6m7j9njldwwzlg9v7v53unlr4jkmx6eyvwc0uz5t') == (
        'bchtest', 1, bytes.fromhex('f5bf48b397dae70be82b3cca4793f8eb2b6cdac9'))
    assert ref_script.num_encode(-255) == b'\xff\x80' and ref_script.num_decode(b'\xff\x80') == -255
    # BIP143 native P2WPKH example: preimage layout (the same digest algorithm)
    raw = bytes.fromhex(
        '0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffff'
        'ffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202c'
        'b206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143b'
        'de42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000')
    tx, n = ref_tx.parse(raw)
    assert n == len(raw) and ref_tx.ser(tx) == raw
    script = bytes.fromhex('76a9141d0f172a0ecb48aee1be1f2687d2963ae33f71a188ac')
    assert ref_tx.sighash(tx, 1, 600000000, script, 1).hex() == \
        'c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670'
    from vlib import ref_aes
    block = bytes.fromhex('00112233445566778899aabbccddeeff')
    for size, want in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'),
                       (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'),
                       (32, '8ea2b7ca516745bfeafc49904b496089')):
        keys = ref_aes.expand_key(bytes(range(size)))
        assert ref_aes.encrypt_block(keys, block).hex() == want
        assert ref_aes.decrypt_block(keys, bytes.fromhex(want)) == block
    assert ref_aes.cbc_encrypt(         # NIST SP 800-38A F.2.1
        bytes.fromhex('2b7e151628aed2a6abf7158809cf4f3c'), bytes(range(16)),
        bytes.fromhex('6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51')).hex() \
        == '7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2'
    print('self-tests passed')
    return 0
