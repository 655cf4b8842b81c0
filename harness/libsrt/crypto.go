package libsrt

import (
	"crypto/aes"
	"crypto/cipher"

	nd "github.com/sbraveyoung/GGmpeg/verifnd"
)

// Data packets under a stream key.
//
//vf:prop C25
//vf:bounds every key pair, salt, sequence number and key indicator, payloads of 0..20 bytes
func VfDecrypt() {
	cs := &CryptoState{Active: nd.Bool("active")}
	copy(cs.EvenSEK[:], nd.Bytes("even", 16))
	copy(cs.OddSEK[:], nd.Bytes("odd", 16))
	copy(cs.Salt[:], nd.Bytes("salt", 16))
	seq := nd.U32("seq")
	kk := nd.U8("kk")
	plain := nd.Bytes("payload", nd.Pick("length", 0, 2)*10)
	in := append([]byte(nil), plain...)
	key := cs.EvenSEK
	if kk == 2 {
		key = cs.OddSEK
	}
	if cs.Active && (kk == 1 || kk == 2) {
		//what the sender does
		iv := make([]byte, 16)
		copy(iv, cs.Salt[:14])
		for i, b := range vfB32(seq) {
			iv[i] ^= b
		}
		blk, err := aes.NewCipher(key[:])
		nd.Assert(err == nil, "cipher")
		cipher.NewCTR(blk, iv).XORKeyStream(in, plain)
	}
	out, err := cs.DecryptDataPayload(kk, seq, in)
	switch {
	case !cs.Active || kk == 0:
		nd.Assert(err == nil && nd.Eq(out, plain), "passed as it is")
	case kk == 1 || kk == 2:
		nd.Assert(err == nil && nd.Eq(out, plain), "what was encrypted under the indicated key is recovered")
		nd.Reach("decrypted")
	default:
		nd.Assert(err != nil, "an impossible indicator is refused")
		nd.Reach("refused")
	}
}
