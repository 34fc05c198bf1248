package zzverif

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// failing reports a failing input and stops the test.
func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

func seeded() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
