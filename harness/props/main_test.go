package props

import (
	"os"
	"strings"
	"testing"

	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	// the code under test may print; keep the log for the harness's own lines
	hx.Main(m)
}

func known(key string) bool {
	for _, k := range strings.Split(os.Getenv("HX_KNOWN"), ",") {
		if k == key {
			return true
		}
	}
	return false
}
