package ref

import "fmt"

func name(tab map[int]string, n int, def string) string {
	if s, ok := tab[n]; ok {
		return s
	}
	return def
}

const unknown = "Unknown"
const private = "Private/Experimental algorithm"

func isPriv(n byte) bool { return n >= 100 && n <= 110 }

func alg(tab map[int]string, kind string, n byte, priv bool) string {
	s := name(tab, int(n), unknown)
	if priv && isPriv(n) {
		s = private
	}
	return fmt.Sprintf("%s (%s %d)", s, kind, n)
}

var tagNames = map[int]string{
	0: "Reserved", 1: "Public-Key Encrypted Session Key Packet", 2: "Signature Packet",
	3: "Symmetric-Key Encrypted Session Key Packet", 4: "One-Pass Signature Packet",
	5: "Secret-Key Packet", 6: "Public-Key Packet", 7: "Secret-Subkey Packet",
	8: "Compressed Data Packet", 9: "Symmetrically Encrypted Data Packet",
	10: "Marker Packet (Obsolete Literal Packet)", 11: "Literal Data Packet", 12: "Trust Packet",
	13: "User ID Packet", 14: "Public-Subkey Packet", 17: "User Attribute Packet",
	18: "Sym. Encrypted Integrity Protected Data Packet", 19: "Modification Detection Code Packet",
	20: "AEAD Encrypted Data Packet",
	60: "Private or Experimental Values", 61: "Private or Experimental Values",
	62: "Private or Experimental Values", 63: "Private or Experimental Values",
}

// TagName names a packet.
func TagName(t int) string { return fmt.Sprintf("%s (tag %d)", name(tagNames, t, unknown), t) }

var pubNames = map[int]string{
	1: "RSA (Encrypt or Sign)", 2: "RSA Encrypt-Only", 3: "RSA Sign-Only",
	16: "Elgamal (Encrypt-Only)", 17: "DSA (Digital Signature Algorithm)",
	18: "ECDH public key algorithm", 19: "ECDSA public key algorithm",
	20: "Reserved (formerly Elgamal Encrypt or Sign)", 21: "Reserved for Diffie-Hellman", 22: "EdDSA",
}

func PubName(n byte) string { return alg(pubNames, "pub", n, true) }

var symNames = map[int]string{
	0: "Plaintext or unencrypted data", 1: "IDEA", 2: "TripleDES (168 bit key derived from 192)",
	3: "CAST5 (128 bit key, as per)", 4: "Blowfish (128 bit key, 16 rounds)", 5: "Reserved", 6: "Reserved",
	7: "AES with 128-bit key", 8: "AES with 192-bit key", 9: "AES with 256-bit key",
	10: "Twofish with 256-bit key", 11: "Camellia with 128-bit key", 12: "Camellia with 192-bit key",
	13: "Camellia with 256-bit key",
}

func SymName(n byte) string { return alg(symNames, "sym", n, true) }

// blockSize of a cipher; 0 if the cipher is not known.
func blockSize(n byte) int {
	switch {
	case n <= 6:
		return 8
	case n <= 13:
		return 16
	}
	return 0
}

var hashNames = map[int]string{
	1: "MD5", 2: "SHA-1", 3: "RIPE-MD/160", 4: "Reserved", 5: "Reserved", 6: "Reserved", 7: "Reserved",
	8: "SHA2-256", 9: "SHA2-384", 10: "SHA2-512", 11: "SHA2-224", 12: "SHA3-256", 13: "Reserved", 14: "SHA3-512",
}

func HashName(n byte) string { return alg(hashNames, "hash", n, true) }

var compNames = map[int]string{0: "Uncompressed", 1: "ZIP <RFC1951>", 2: "ZLIB <RFC1950>", 3: "BZip2"}

func CompName(n byte) string { return alg(compNames, "comp", n, false) }

var aeadNames = map[int]string{1: "EAX mode", 2: "OCB mode <RFC7253>"}

func AEADName(n byte) string { return alg(aeadNames, "aead", n, true) }

func aeadIV(n byte) int {
	switch n {
	case 1:
		return 16
	case 2:
		return 15
	}
	return 0
}

var s2kNames = map[int]string{0: "Simple S2K", 1: "Salted S2K", 2: "Reserved", 3: "Iterated and Salted S2K"}

func S2KName(n byte) string { return alg(s2kNames, "s2k", n, true) }

var sigNames = map[int]string{
	0x00: "Signature of a binary document", 0x01: "Signature of a canonical text document",
	0x02: "Standalone signature", 0x10: "Generic certification of a User ID and Public-Key packet",
	0x11: "Persona certification of a User ID and Public-Key packet",
	0x12: "Casual certification of a User ID and Public-Key packet",
	0x13: "Positive certification of a User ID and Public-Key packet",
	0x16: "Attested Key Signature", 0x18: "Subkey Binding Signature", 0x19: "Primary Key Binding Signature",
	0x1f: "Signature directly on a key", 0x20: "Key revocation signature", 0x28: "Subkey revocation signature",
	0x30: "Certification revocation signature", 0x40: "Timestamp signature",
	0x50: "Third-Party Confirmation signature",
}

func SigName(n byte) string { return fmt.Sprintf("%s (0x%02x)", name(sigNames, int(n), unknown), n) }

var subNames = map[int]string{
	0: "Reserved", 1: "Image Attribute", 2: "Signature Creation Time", 3: "Signature Expiration Time",
	4: "Exportable Certification", 5: "Trust Signature", 6: "Regular Expression", 7: "Revocable", 8: "Reserved",
	9: "Key Expiration Time", 10: "Placeholder for backward compatibility", 11: "Preferred Symmetric Algorithms",
	12: "Revocation Key", 13: "Reserved", 14: "Reserved", 15: "Reserved", 16: "Issuer", 17: "Reserved",
	18: "Reserved", 19: "Reserved", 20: "Notation Data", 21: "Preferred Hash Algorithms",
	22: "Preferred Compression Algorithms", 23: "Key Server Preferences", 24: "Preferred Key Server",
	25: "Primary User ID", 26: "Policy URI", 27: "Key Flags", 28: "Signer's User ID", 29: "Reason for Revocation",
	30: "Features", 31: "Signature Target", 32: "Embedded Signature", 33: "Issuer Fingerprint",
	34: "Preferred AEAD Algorithms", 35: "Intended Recipient Fingerprint", 36: "Reserved",
	37: "Attested Certifications", 38: "Key Block",
}

// SubName names a subpacket from its type octet, critical bit included.
func SubName(n byte) string {
	t := n & 0x7f
	s := name(subNames, int(t), unknown)
	if isPriv(t) {
		s = "Private or experimental"
	}
	if n&0x80 != 0 {
		s += " <critical>"
	}
	return fmt.Sprintf("%s (sub %d)", s, t)
}

var curves = []struct {
	name string
	oid  string
}{
	{"nistp256 (256bits key size)", "\x2a\x86\x48\xce\x3d\x03\x01\x07"},
	{"secp256k1 (256bits key size)", "\x2b\x81\x04\x00\x0a"},
	{"nistp384 (384bits key size)", "\x2b\x81\x04\x00\x22"},
	{"nistp521 (521bits key size)", "\x2b\x81\x04\x00\x23"},
	{"brainpoolP256r1 (256bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x07"},
	{"brainpoolP384r1 (384bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0b"},
	{"brainpoolP512r1 (512bits key size)", "\x2b\x24\x03\x03\x02\x08\x01\x01\x0d"},
	{"ed25519 (256bits key size)", "\x2b\x06\x01\x04\x01\xda\x47\x0f\x01"},
	{"cv25519 (256bits key size)", "\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01"},
}

// CurveOIDs are the curves the tool has to know.
func CurveOIDs() (r [][]byte) {
	for _, c := range curves {
		r = append(r, []byte(c.oid))
	}
	return
}

func curveName(oid []byte) string {
	for _, c := range curves {
		if c.oid == string(oid) {
			return c.name
		}
	}
	return unknown
}

func pointName(alg string, mpi []byte) string {
	f := unknown
	if len(mpi) > 0 {
		switch mpi[0] {
		case 0x04:
			f = "uncompressed format"
		case 0x40:
			f = "Native point format of the curve follows"
		case 0x41:
			f = "Only X coordinate follows"
		case 0x42:
			f = "Only Y coordinate follows"
		}
	}
	return alg + " EC point (" + f + ")"
}

func LiteralName(n byte) (value, note string) {
	value = string(rune(n))
	if n < 0x20 {
		value = fmt.Sprintf("(U+%04X)", n)
	}
	switch n {
	case 'b':
		note = "binary"
	case 't':
		note = "text"
	case 'u':
		note = "UTF-8 text"
	case 'l', '1':
		note = "local"
	default:
		note = "unknown"
	}
	return
}

func ReasonName(n byte) string {
	s := "Unknown reason"
	switch {
	case n == 0:
		s = "No reason specified (key revocations or cert revocations)"
	case n == 1:
		s = "Key is superseded (key revocations)"
	case n == 2:
		s = "Key material has been compromised (key revocations)"
	case n == 3:
		s = "Key is retired and no longer used (key revocations)"
	case n == 32:
		s = "User ID resultrmation is no longer valid (cert revocations)"
	case isPriv(n):
		s = "(Private Use)"
	}
	return fmt.Sprintf("%s (%d)", s, n)
}
