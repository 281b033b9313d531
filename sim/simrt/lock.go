package simrt

import "time"

// LockPoint is a scheduling point at a lock operation.
func LockPoint(what string) {
	t := cur
	if t == nil || t.dying || !active {
		return
	}
	k := t.k
	if k.PreemptGap > 0 && k.C.Prob("sched", 1, 3) {
		t.what = what
		t.yield()
	}
}

func LockWait(what string, ready func() bool) {
	t := cur
	if t == nil || t.dying {
		return
	}
	t.k.Block(what, ready)
}

func Dying() bool { return cur != nil && cur.dying }

// TaskSleep is the shim's Sleep: simulated inside a task.
func TaskSleep(d time.Duration) {
	if t := cur; t != nil && !t.dying {
		t.k.Sleep(d)
		return
	}
	time.Sleep(d)
}
