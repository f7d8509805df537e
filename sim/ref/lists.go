package ref

import (
	"crypto/sha256"
	_ "embed"
	"encoding/hex"
	"strings"
)

//go:embed bip39.txt
var bip39 string

// SHA-256 of the official BIP-39 lists (words joined by newlines, with a final
// newline).
var officialSHA = [9]string{
	"2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda", // english
	"ebc3959ab7801a1df6bac4fa7d970652f1df76b683cd2f4003c941c63d517e59", // french
	"2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd", // japanese
	"d392c49fdb700a24cd1fceb237c1f65dcc128f6b34a8aacb58b59384b5c648c2", // italian
	"46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b", // spanish
	"9e95f86c167de88f450f0aaf89e87f6624a57f973c67b516e338e8e8b8897f60", // korean
	"7e80e161c3e93d9554c2efb78d4e3cebf8fc727e9c52e03b83b94406bdcc95fc", // czech
	"417b26b3d8500a4ae3d59717d7011952db6fc2fb84b807f3f94ac734e89c1b5f", // chinese traditional
	"5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726", // chinese simplified
}

// Lists are the official BIP-39 lists: English, French, Japanese, Italian,
// Spanish, Korean, Czech, Chinese traditional, Chinese simplified.
var Lists = func() (l [9][]string) {
	for i, s := range strings.SplitN(bip39, "\n\n", 9) {
		l[i] = strings.Fields(s)
		h := sha256.Sum256([]byte(strings.Join(l[i], "\n") + "\n"))
		if len(l[i]) != 2048 || hex.EncodeToString(h[:]) != officialSHA[i] {
			panic("reference word lists are damaged")
		}
	}
	return l
}()
