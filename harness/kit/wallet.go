package kit

import (
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcutil"
	"github.com/btcsuite/btcd/btcutil/hdkeychain"
	"github.com/btcsuite/btcd/chaincfg"
	"pgregory.net/rapid"
)

// Wallet is a descriptor with the scripts it stands for, derived here on its own.
type Wallet struct {
	Desc    string
	Scripts [][]byte // of indexes 0.. (more than the 100 that count), or the only one
	Ranged  bool
	Kind    string
}

func p2wpkh(pub []byte) []byte { return append([]byte{0, 0x14}, btcutil.Hash160(pub)...) }

// DrawWallet draws a wallet.
func DrawWallet(t *rapid.T) Wallet {
	seed := uint64(rapid.IntRange(1, 10000).Draw(t, "key"))
	priv, pub := btcec.PrivKeyFromBytes(Expand(seed, 32))
	w := Wallet{Kind: rapid.SampledFrom([]string{"public key", "uncompressed key", "wif", "extended key", "ranged", "ranged", "ranged"}).Draw(t, "kind")}
	var key string
	switch w.Kind {
	case "public key":
		key = hex.EncodeToString(pub.SerializeCompressed())
		w.Scripts = [][]byte{p2wpkh(pub.SerializeCompressed())}
	case "uncompressed key":
		key = hex.EncodeToString(pub.SerializeUncompressed())
		w.Scripts = [][]byte{p2wpkh(pub.SerializeUncompressed())}
	case "wif":
		wif, err := btcutil.NewWIF(priv, &chaincfg.MainNetParams, true)
		if err != nil {
			panic(err)
		}
		key = wif.String()
		w.Scripts = [][]byte{p2wpkh(pub.SerializeCompressed())}
	default:
		w.Ranged = w.Kind == "ranged"
		m, err := hdkeychain.NewMaster(Expand(seed, 32), &chaincfg.MainNetParams)
		if err != nil {
			panic(err)
		}
		public := rapid.Bool().Draw(t, "public")
		if public {
			// an account key, as a watch-only user has it
			if m, err = m.Derive(hdkeychain.HardenedKeyStart + 84); err != nil {
				panic(err)
			}
			if m, err = m.Neuter(); err != nil {
				panic(err)
			}
		}
		key = m.String()
		n := rapid.IntRange(1, 3).Draw(t, "path length")
		if !w.Ranged {
			n = rapid.IntRange(0, 3).Draw(t, "path length")
		}
		for i := 0; i < n; i++ {
			v := uint32(rapid.SampledFrom([]int{0, 1, 2, 44, 2147483647}).Draw(t, "step"))
			s := fmt.Sprint(v)
			if !public && rapid.IntRange(0, 2).Draw(t, "hardened") == 0 {
				s += rapid.SampledFrom([]string{"'", "h"}).Draw(t, "mark")
				v += hdkeychain.HardenedKeyStart
			}
			key += "/" + s
			if m, err = m.Derive(v); err != nil {
				panic(err)
			}
		}
		last := 1
		if w.Ranged {
			key += "/*"
			last = 103
		}
		for i := 0; i < last; i++ {
			c := m
			if w.Ranged {
				if c, err = m.Derive(uint32(i)); err != nil {
					panic(err)
				}
			}
			p, err := c.ECPubKey()
			if err != nil {
				panic(err)
			}
			w.Scripts = append(w.Scripts, p2wpkh(p.SerializeCompressed()))
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "origin") == 0 {
		key = rapid.SampledFrom([]string{"[d34db33f/44'/0'/0']", "[00000000]", "[ffffffff/84h]"}).Draw(t, "origin form") + key
	}
	w.Desc = "elwpkh(" + key + ")"
	if rapid.IntRange(0, 3).Draw(t, "checksum") == 0 {
		w.Desc += "#" + string(Expand(seed, 1)[0]%26+'a') + "jq8xyzw"
	}
	if rapid.IntRange(0, 5).Draw(t, "space") == 0 {
		w.Desc = strings.Replace(w.Desc, "(", "( ", 1)
	}
	return w
}

// Script of the chain: indexes below 10 are the wallet's, spread over its range, then decoys.
func (w Wallet) Script(i int) []byte {
	n := len(w.Scripts)
	if w.Ranged {
		pick := []int{0, 1, 50, 98, 99, 2, 100, 102} // poolSize is 6: the last two do not count
		return w.Scripts[pick[i%8]]
	}
	if i%2 == 0 {
		return w.Scripts[i%n]
	}
	s := append([]byte(nil), w.Scripts[0]...)
	s[2+i%20] ^= 1
	return s
}

// Owns tells whether a script is one the descriptor stands for.
func (w Wallet) Owns(script []byte) bool {
	for i, s := range w.Scripts {
		if i < 100 && string(s) == string(script) {
			return true
		}
	}
	return false
}
