package time

type Ticker struct {
	C       <-chan Time
	c       chan Time
	stopped *bool
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, stopped: new(bool)}
	stopped := t.stopped
	go func() {
		for {
			symTimerWait(stopped, d)
			if *stopped {
				return
			}
			select {
			case c <- Now():
			default:
			}
		}
	}()
	return t
}

func (t *Ticker) Stop()            { *t.stopped = true }
func (t *Ticker) Reset(d Duration) {}
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
