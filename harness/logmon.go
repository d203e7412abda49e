package main

import (
	"bytes"
	"log"
	"sync"
)

// The code under test logs a message when one of its own invariants is broken. These messages are
// collected; checks that run one execution at a time, or that are only interested in whether there are
// any, treat them as observations.
type logMonitor struct {
	mu    sync.Mutex
	lines []string
	count int
}

func (l *logMonitor) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.count++
	if len(l.lines) < 20 {
		l.lines = append(l.lines, string(bytes.TrimSpace(p)))
	}
	return len(p), nil
}

func (l *logMonitor) take() (lines []string, n int) {
	l.mu.Lock()
	defer l.mu.Unlock()
	lines, n = l.lines, l.count
	l.lines, l.count = nil, 0
	return
}

var logged logMonitor

func init() { log.SetOutput(&logged) }
