// H(msg) = HKDF-SHA256(msg, salt "ThresholdECDSA", info "H2F" 0 1), 48 bytes, big-endian, modulo the group order
contract crypto.HashToBigInt(msg bytes) (r nat)
	ensures val(r) == H(msg)
