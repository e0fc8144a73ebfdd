package simrt

var randState uint64

// SeedRandom starts the random source of a run.
func SeedRandom(s uint64) { randState = s*0x9E3779B97F4A7C15 + 0x1234567 }

// Random is the run's source of randomness for the code under test.
//
//go:norace
func Random() uint64 {
	randState += 0x9E3779B97F4A7C15
	z := randState
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// RandReader reads from Random.
type RandReader struct{}

//go:norace
func (RandReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(Random() >> 56)
	}
	return len(b), nil
}
