//go:build race

package vsched

// An atomic counter would order the threads for the race detector.
func count() {}
