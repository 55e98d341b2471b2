package kafkamock

// Timers over the engine's virtual clock (redirect targets; used only if the code under test uses them).

import "time"

type vtState struct {
	gen    int
	active bool
	ch     chan time.Time
	f      func()
}

var vtTimers = map[*time.Timer]*vtState{}
var vtTickers = map[*time.Ticker]*vtState{}

func vtStart(st *vtState, d time.Duration, period bool) {
	st.gen++
	st.active = true
	gen := st.gen
	go func() {
		for {
			time.Sleep(d)
			if !st.active || st.gen != gen {
				return
			}
			if !period {
				st.active = false
			}
			if st.f != nil {
				st.f()
			} else {
				select {
				case st.ch <- time.Now():
				default:
				}
			}
			if !period {
				return
			}
		}
	}()
}

func vtNewTimer(d time.Duration) *time.Timer {
	st := &vtState{ch: make(chan time.Time, 1)}
	t := &time.Timer{C: st.ch}
	vtTimers[t] = st
	vtStart(st, d, false)
	return t
}

func vtAfter(d time.Duration) <-chan time.Time { return vtNewTimer(d).C }

func vtAfterFunc(d time.Duration, f func()) *time.Timer {
	st := &vtState{f: f}
	t := &time.Timer{}
	vtTimers[t] = st
	vtStart(st, d, false)
	return t
}

func vtTimerStop(t *time.Timer) bool {
	st := vtTimers[t]
	was := st.active
	st.active = false
	return was
}

func vtTimerReset(t *time.Timer, d time.Duration) bool {
	st := vtTimers[t]
	was := st.active
	vtStart(st, d, false)
	return was
}

func vtNewTicker(d time.Duration) *time.Ticker {
	st := &vtState{ch: make(chan time.Time, 1)}
	t := &time.Ticker{C: st.ch}
	vtTickers[t] = st
	vtStart(st, d, true)
	return t
}

func vtTick(d time.Duration) <-chan time.Time { return vtNewTicker(d).C }

func vtTickerStop(t *time.Ticker) { vtTickers[t].active = false }

func vtTickerReset(t *time.Ticker, d time.Duration) { vtStart(vtTickers[t], d, true) }
