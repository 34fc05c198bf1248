package zzverif

import "testing"

func TestReplayListener(t *testing.T) { listenerReplay(t) }
