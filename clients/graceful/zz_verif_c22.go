package graceful

import (
	"os"
	"time"
)

func zzDoubleKick(d time.Duration) { DoubleKickWindow(d) }
func zzTimeout(d time.Duration)    { Timeout(d) }
func zzHandleSignals()             { HandleSignals() }
func zzAddSignal(sig []os.Signal)  { AddSignal(sig...) }
func zzInit()                      {}

func zzSince(t time.Time) time.Duration { return time.Now().Sub(t) }
func zzUntil(t time.Time) time.Duration { return t.Sub(time.Now()) }
func zzAfterFunc(d time.Duration, f func()) *time.Timer {
	go func() {
		time.Sleep(d)
		f()
	}()
	return &time.Timer{}
}
