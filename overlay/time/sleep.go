package time

// Model: a timer is a goroutine that may fire whenever the scheduler picks it, in an order that the
// durations of all pending timers allow.

func symTimerWait(stopped *bool, d Duration)
func symSleep()

func Sleep(d Duration) { symSleep() }

type Timer struct {
	C       <-chan Time
	c       chan Time
	f       func()
	stopped *bool
	active  *bool
}

func (t *Timer) start(d Duration) {
	stopped, active := new(bool), new(bool)
	*active = true
	t.stopped, t.active = stopped, active
	f, c := t.f, t.c
	go func() {
		symTimerWait(stopped, d)
		if *stopped {
			return
		}
		*active = false
		if f != nil {
			f()
			return
		}
		select {
		case c <- Now():
		default:
		}
	}()
}

func (t *Timer) Stop() bool {
	was := *t.active
	*t.stopped = true
	*t.active = false
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
	return was
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func (t *Timer) Reset(d Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}
