package p

import (
	"crypto/rand"
	"io"
)

func setRandom(r io.Reader) { rand.Reader = r }
