//go:build !race

package vsched

import "sync/atomic"

func count() { atomic.AddInt64(&MapLoops, 1) }
