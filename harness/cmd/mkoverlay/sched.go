package main

// doSchedStd makes the runtime's remaining nondeterminism inside synctest
// bubbles the explorer's: which ready case a select takes, the order of timers
// of the same instant, dialling; blocking on a mutex counts as blocking.
func doSchedStd() {
	patch("runtime/select.go",
		"		j := cheaprandn(uint32(norder + 1))\n",
		"		j := uint32(norder)\n		if gp.bubble == nil {\n			j = cheaprandn(uint32(norder + 1))\n		}\n",
		"	pollorder = pollorder[:norder]\n",
		`	if gp.bubble != nil && norder > 1 && verifSelect != nil {
		// Rotate: the case looked at first is the explorer's choice.
		if r := verifSelect(norder); r > 0 {
			for ; r > 0; r-- {
				first := pollorder[0]
				copy(pollorder[:norder-1], pollorder[1:norder])
				pollorder[norder-1] = first
			}
		}
	}
	pollorder = pollorder[:norder]
`)
	add("runtime/verif_sched.go", `package runtime

var verifSelect func(n int) int

var verifTimerSeq uint32

// VerifSetSelectHook sets the function that picks the case a select inside a
// bubble looks at first.
func VerifSetSelectHook(f func(n int) int) { verifSelect = f }

// VerifGoid identifies the running goroutine.
func VerifGoid() uint64 { return getg().goid }

// VerifInBubble reports whether the running goroutine belongs to a bubble.
func VerifInBubble() bool { return getg().bubble != nil }

// VerifResetTimers restarts the numbering of timers.
func VerifResetTimers() { verifTimerSeq = 0 }
`)
	patch("runtime/time.go", "			t.rand = cheaprand()\n", "			verifTimerSeq++\n			t.rand = verifTimerSeq\n")
	patch("runtime/runtime2.go",
		"	waitReasonSynctestSelect:        true,\n}",
		"	waitReasonSynctestSelect:        true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSyncWaitGroupWait:     true,\n}")
	patch("runtime/proc.go",
		"const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 3600 * 1000 * 1000 * 1000",
		"const randomizeScheduler = raceenabled", "const randomizeScheduler = false")
	patch("internal/sync/mutex.go", "	starvationThresholdNs = 1e6\n", "	starvationThresholdNs = 3600e9\n")
	patch("net/dial.go",
		"func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
		`// VerifDial, when set, answers every dial.
var VerifDial func(ctx context.Context, timeout time.Duration, network, address string) (Conn, error)

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if VerifDial != nil {
		return VerifDial(ctx, d.Timeout, network, address)
	}
`)
	add("testing/synctest/verif_run.go", `package synctest

// VerifRun runs f in a new bubble.
func VerifRun(f func()) { synctestRun(f) }
`)
	patch("testing/synctest/synctest.go",
		"// Wait blocks until every goroutine", "func synctestRun(f func()) { synctest.Run(f) }\n\n// Wait blocks until every goroutine")
}
