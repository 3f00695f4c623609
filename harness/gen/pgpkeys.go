package gen

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"aaverif/hx"

	"github.com/nikirill/go-crypto/openpgp"
	"github.com/nikirill/go-crypto/openpgp/elgamal"
	"github.com/nikirill/go-crypto/openpgp/packet"
)

// PIdent is an identity of a generated OpenPGP key.
type PIdent struct {
	Name    string
	Email   string // as written in the name
	Self    time.Time
	Primary *bool
	Third   int  // signatures of other keys
	Signed  bool // carries a valid signature of the key itself
	Bad     bool // carries an invalid one
}

// PKey is a generated OpenPGP key with its serialization.
type PKey struct {
	Priv     *packet.PrivateKey
	Created  time.Time
	Idents   []PIdent
	Revoked  bool
	Subkeys  int
	Raw      []byte
	Readable bool
	Algo     packet.PublicKeyAlgorithm
}

// PrimaryEmails are the emails that may be the key's primary email: the email
// of the primary identity if it has one, any other otherwise.
func (k *PKey) PrimaryEmails() []string {
	var prim *PIdent
	for pass := 0; pass < 2 && prim == nil; pass++ {
		for i := range k.Idents {
			id := &k.Idents[i]
			if !id.Signed || (pass == 0 && (id.Primary == nil || !*id.Primary)) {
				continue
			}
			if prim == nil || id.Self.After(prim.Self) || (id.Self.Equal(prim.Self) && id.Name < prim.Name) {
				prim = id
			}
		}
	}
	if prim == nil {
		return nil
	}
	if prim.Email != "" {
		return []string{strings.ToLower(prim.Email)}
	}
	var out []string
	for _, id := range k.Idents {
		if id.Signed && id.Email != "" {
			out = append(out, strings.ToLower(id.Email))
		}
	}
	sort.Strings(out)
	return out
}

// Print tells what makes up the key, without its subkeys: fingerprint,
// identities with their self-signatures and the signatures of others.
func Print(e *openpgp.Entity) string {
	var ids []string
	for name, id := range e.Identities {
		prim := "-"
		if id.SelfSignature.IsPrimaryId != nil {
			prim = fmt.Sprint(*id.SelfSignature.IsPrimaryId)
		}
		var sigs []string
		for _, s := range id.Signatures {
			iss := uint64(0)
			if s.IssuerKeyId != nil {
				iss = *s.IssuerKeyId
			}
			sigs = append(sigs, fmt.Sprintf("%x@%d/%d", iss, s.CreationTime.Unix(), s.SigType))
		}
		ids = append(ids, fmt.Sprintf("%q self@%d prim=%s tag=%x sigs=%v", name, id.SelfSignature.CreationTime.Unix(), prim, id.SelfSignature.HashTag, sigs))
	}
	sort.Strings(ids)
	return fmt.Sprintf("%X created %d algo %d: %s", e.PrimaryKey.Fingerprint, e.PrimaryKey.CreationTime.Unix(), e.PrimaryKey.PubKeyAlgo, strings.Join(ids, "; "))
}

var (
	ecPool  []*ecdsa.PrivateKey
	rsaPool []*rsa.PrivateKey
	dsaPool []*dsa.PrivateKey
	poolUp  sync.Once
)

func pool() {
	poolUp.Do(func() {
		// the first ones are the fast ones
		curves := []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}
		for i := 0; i < 40; i++ {
			h := sha256.Sum256([]byte{byte(i)})
			k := &ecdsa.PrivateKey{D: new(big.Int).SetBytes(h[:31])}
			k.Curve = curves[0]
			if i > 33 {
				k.Curve = curves[i%3]
			}
			k.X, k.Y = k.Curve.ScalarBaseMult(k.D.Bytes())
			ecPool = append(ecPool, k)
		}
		for i := 0; i < 3; i++ {
			k, err := rsa.GenerateKey(hx.NewStream(uint64(i)), []int{1024, 1024, 2048}[i])
			if err != nil {
				hx.Broken("rsa: %v", err)
			}
			rsaPool = append(rsaPool, k)
		}
		par := dsa.Parameters{}
		if err := dsa.GenerateParameters(&par, hx.NewStream(7), dsa.L1024N160); err != nil {
			hx.Broken("dsa: %v", err)
		}
		for i := 0; i < 2; i++ {
			k := &dsa.PrivateKey{}
			k.Parameters = par
			dsa.GenerateKey(k, hx.NewStream(uint64(i)))
			dsaPool = append(dsaPool, k)
		}
	})
}

// KeyAlgo selects the kind of a new key.
type KeyAlgo int

const (
	AnyAlgo KeyAlgo = iota
	ECDSA
	RSA
	DSA
)

// NewPriv makes key material with the creation time.
func NewPriv(s *hx.Stream, created time.Time, a KeyAlgo) *packet.PrivateKey {
	pool()
	if a == AnyAlgo {
		a = []KeyAlgo{ECDSA, ECDSA, ECDSA, ECDSA, ECDSA, ECDSA, ECDSA, RSA, RSA, RSA, DSA}[s.Intn(11)]
	}
	switch a {
	case RSA:
		return packet.NewRSAPrivateKey(created, rsaPool[s.Intn(len(rsaPool))])
	case DSA:
		return packet.NewDSAPrivateKey(created, dsaPool[s.Intn(len(dsaPool))])
	}
	return packet.NewECDSAPrivateKey(created, ecPool[s.Intn(len(ecPool))])
}

// Secs is a time on the scale of OpenPGP.
func Secs(n int) time.Time { return time.Unix(int64(n), 0).UTC() }

func must(err error) {
	if err != nil {
		hx.Broken("building an OpenPGP key: %v", err)
	}
}

// Build signs and serializes the key. Extra packets that an unknowing reader
// skips are put in between if junk is set.
func (k *PKey) Build(s *hx.Stream, junk bool) {
	var buf bytes.Buffer
	skip := func() {
		if junk && s.Intn(3) == 0 {
			tag := []byte{60, 61, 62, 63, 12, 10}[s.Intn(6)]
			b := s.Bytes(s.Intn(150))
			buf.WriteByte(0xc0 | tag)
			buf.WriteByte(byte(len(b)))
			buf.Write(b)
		}
	}
	must(k.Priv.PublicKey.Serialize(&buf))
	skip()
	if k.Revoked {
		sig := k.sig(packet.SigTypeKeyRevocation, k.Created.Add(time.Hour), k.Priv)
		h := crypto.SHA256.New()
		k.Priv.PublicKey.SerializeSignaturePrefix(h)
		var pb bytes.Buffer
		must(k.Priv.PublicKey.Serialize(&pb))
		h.Write(body(pb.Bytes()))
		must(sig.Sign(h, k.Priv, nil))
		must(sig.Serialize(&buf))
	}
	for _, id := range k.Idents {
		skip()
		uid := &packet.UserId{Id: id.Name}
		must(uid.Serialize(&buf))
		before := s.Intn(id.Third + 1)
		for i := 0; i < id.Third+1; i++ {
			if i == before && (id.Signed || id.Bad) {
				sig := k.sig([]packet.SignatureType{packet.SigTypePositiveCert, packet.SigTypeGenericCert}[s.Intn(2)], id.Self, k.Priv)
				sig.IsPrimaryId = id.Primary
				name := id.Name
				if id.Bad {
					name += "!"
				}
				must(sig.SignUserId(name, &k.Priv.PublicKey, k.Priv, nil))
				must(sig.Serialize(&buf))
			}
			if i < id.Third {
				o := NewPriv(s, Secs(1000+s.Intn(1000)), ECDSA)
				sig := k.sig([]packet.SignatureType{packet.SigTypeGenericCert, packet.SigTypePersonaCert, packet.SigTypePositiveCert}[s.Intn(3)], Secs(1500000000+s.Intn(100000)), o)
				if s.Intn(3) == 0 {
					t := true
					sig.IsPrimaryId = &t
				}
				must(sig.SignUserId(id.Name, &k.Priv.PublicKey, o, nil))
				must(sig.Serialize(&buf))
			}
		}
	}
	skip()
	for i := 0; i < k.Subkeys; i++ {
		sub := NewPriv(s, k.Created, AnyAlgo)
		pub := &sub.PublicKey
		if s.Intn(3) == 0 {
			eg := &elgamal.PublicKey{G: big.NewInt(2), P: new(big.Int).Lsh(big.NewInt(1), 600), Y: new(big.Int).SetBytes(s.Bytes(70))}
			pub = packet.NewElGamalPublicKey(k.Created, eg)
		}
		pub.IsSubkey = true
		sig := k.sig(packet.SigTypeSubkeyBinding, k.Created, k.Priv)
		must(sig.SignKey(pub, k.Priv, nil))
		must(pub.Serialize(&buf))
		must(sig.Serialize(&buf))
	}
	k.Raw = buf.Bytes()
	k.Algo = k.Priv.PubKeyAlgo
	k.Readable = false
	for _, id := range k.Idents {
		if id.Signed {
			k.Readable = true
		}
	}
	for _, id := range k.Idents {
		if id.Bad {
			k.Readable = false
		}
	}
	if k.Readable {
		k.Entity()
	}
}

func (k *PKey) sig(ty packet.SignatureType, at time.Time, by *packet.PrivateKey) *packet.Signature {
	id := by.KeyId
	return &packet.Signature{SigType: ty, PubKeyAlgo: by.PubKeyAlgo, Hash: crypto.SHA256, CreationTime: at, IssuerKeyId: &id}
}

// body is the packet without its header.
func body(p []byte) []byte {
	switch l := p[1]; {
	case l < 192:
		return p[2:]
	case l < 224:
		return p[3:]
	default:
		return p[6:]
	}
}

// Entity parses the key.
func (k *PKey) Entity() *openpgp.Entity {
	el, err := openpgp.ReadKeyRing(bytes.NewReader(k.Raw))
	if err != nil || len(el) != 1 {
		hx.Broken("a generated OpenPGP key is not readable: %v (%d keys)", err, len(el))
	}
	return el[0]
}

// Unreadable are packets that make up a key which the library cannot read.
// A key of an algorithm that is not supported is one of them if alone is set.
func Unreadable(s *hx.Stream, email string, alone bool) []byte {
	var buf bytes.Buffer
	pkt := func(tag byte, b []byte) {
		buf.WriteByte(0xc0 | tag)
		buf.WriteByte(byte(len(b)))
		buf.Write(b)
	}
	kinds := 2
	if alone {
		kinds = 3
	}
	switch s.Intn(kinds) {
	case 0: // a key of an old version
		b := append([]byte{3}, s.Bytes(4)...)
		b = append(b, 0, 0, 1, 2, 0, 0xc1)
		b = append(b, s.Bytes(63)...)
		b = append(b, 0, 5, 0x11)
		pkt(6, b)
	case 2: // a key of an algorithm that is not supported
		b := append([]byte{4}, s.Bytes(4)...)
		b = append(b, 22)
		pkt(6, append(b, s.Bytes(40)...))
	case 1: // a key that cannot sign
		b := append([]byte{4}, s.Bytes(4)...)
		b = append(b, 16, 0, 8, 0xf1, 0, 8, 0x81, 0, 8, 0x91)
		pkt(6, b)
	}
	pkt(13, []byte("x <"+email+">"))
	return buf.Bytes()
}
