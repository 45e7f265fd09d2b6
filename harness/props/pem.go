package props

import (
	"crypto/x509"
	"encoding/pem"

	"verif/world"
)

// pubPEM is the public key of a named key as PEM text (for algorithm-confusion
// attempts, where it is misused as an HMAC secret).
func pubPEM(name string) string {
	b, err := x509.MarshalPKIXPublicKey(world.PublicKey(name))
	if err != nil {
		return name
	}
	return string(pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: b}))
}

// pubDER is the same key in its binary form.
func pubDER(name string) []byte {
	b, err := x509.MarshalPKIXPublicKey(world.PublicKey(name))
	if err != nil {
		return []byte(name)
	}
	return b
}
