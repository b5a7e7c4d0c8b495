package sym

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/iden3/go-iden3-core/verifharness/vsync"
)

func init() {
	goImpl, waitImpl, yieldImpl = vsync.Go, vsync.Wait, vsync.Point
	runImpl = explore
	abortImpl = func() { panic(vsync.Abort{}) }
}

// explore repeats the entry on the counterexample's inputs under schedules
// of up to three preemptions, chosen at random, until it fails.
func explore(f func()) {
	seed, _ := strconv.ParseInt(os.Getenv("SYM_SEED"), 10, 64)
	end := time.Now().Add(secs())
	points, done, i := 1, 0, 0
	// without threads there are no schedules to try
	for ; time.Now().Before(end) && (points > 1 || i < 20); i++ {
		vsync.Reset(seed<<32+int64(i), i%4, points)
		occ = map[string]int{}
		nowV, nowSet = 0, false
		run = i
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(vsync.Abort); !ok {
						panic(r)
					}
				}
			}()
			f()
			done++
		}()
		if vsync.Points > points {
			points = vsync.Points
		}
	}
	if done == 0 {
		fmt.Println("ASSUME-FAILED")
		os.Exit(4)
	}
	fmt.Println("schedules tried:", i, "points:", points)
}

// secs is how long schedules are tried.
func secs() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("SYM_SECS")); err == nil {
		return time.Duration(n) * time.Second
	}
	return 40 * time.Second
}
