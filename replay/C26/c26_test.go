package zzverif

import (
	"context"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"fmt"
	"io"

	"github.com/zenazn/goji"
	"github.com/zenazn/goji/graceful"
	"github.com/zenazn/goji/web"
	"github.com/zenazn/goji/web/middleware"
)

func TestReplayStack(t *testing.T) {
	// the four are there, once each, and in the order: inserting a probe
	// before each tells where they stand
	var log []string
	probe := func(name string) func(http.Handler) http.Handler {
		return func(h http.Handler) http.Handler {
			return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				log = append(log, name)
				h.ServeHTTP(w, r)
			})
		}
	}
	type mw struct {
		name string
		m    web.MiddlewareType
	}
	all := []mw{{"RequestID", middleware.RequestID}, {"Logger", middleware.Logger}, {"Recoverer", middleware.Recoverer}, {"AutomaticOptions", middleware.AutomaticOptions}}
	for _, m := range all {
		if err := goji.DefaultMux.Insert(probe(m.name), m.m); err != nil {
			failing(t, "the default Mux has no %s: %v", m.name, err)
		}
	}
	goji.Get("/zz", func(w http.ResponseWriter, r *http.Request) {})
	r, _ := http.NewRequest("GET", "/zz", nil)
	goji.DefaultMux.ServeHTTP(rw{}, r)
	if got := strings.Join(log, " "); got != "RequestID Logger Recoverer AutomaticOptions" {
		failing(t, "the default middleware runs in the order %s", got)
	}
	for _, m := range all {
		goji.DefaultMux.Abandon(m.m)
		if err := goji.DefaultMux.Abandon(m.m); err == nil {
			failing(t, "%s is in the default stack more than once", m.name)
		}
	}
}

type rw struct{}

func (rw) Header() http.Header         { return http.Header{} }
func (rw) Write(b []byte) (int, error) { return len(b), nil }
func (rw) WriteHeader(int)             {}

// A program of its own serves, and is stopped with a request in flight.
func TestReplayServe(t *testing.T) {
	if os.Getenv("ZZ_SERVE") != "" {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			os.Exit(9)
		}
		if os.Getenv("ZZ_SERVE") == "fail" {
			l.Close()
		}
		fmt.Println("ADDR", l.Addr())
		goji.Get("/slow", func(w http.ResponseWriter, r *http.Request) {
			time.Sleep(700 * time.Millisecond)
			io.WriteString(w, "done")
		})
		graceful.PostHook(func() { fmt.Println("HOOK") })
		goji.ServeListener(l)
		fmt.Println("RETURNED")
		os.Exit(0)
	}
	prog := func(mode string) *exec.Cmd {
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		t.Cleanup(cancel)
		c := exec.CommandContext(ctx, os.Args[0], "-test.run", "^TestReplayServe$")
		c.Env = append(os.Environ(), "ZZ_SERVE="+mode)
		return c
	}
	failed := prog("fail")
	if out, err := failed.Output(); err == nil || failed.ProcessState.ExitCode() != 1 || strings.Contains(string(out), "RETURNED") {
		failing(t, "serving failed, but the program went on: %q %v", out, err)
	}
	c := prog("serve")
	pr, err := c.StdoutPipe()
	if err != nil {
		t.Skip(err)
	}
	c.Start()
	defer c.Process.Kill()
	var addr string
	fmt.Fscanf(pr, "ADDR %s\n", &addr)
	body := make(chan string, 1)
	go func() {
		resp, err := http.Get("http://" + addr + "/slow")
		if err != nil {
			body <- err.Error()
			return
		}
		b, _ := io.ReadAll(resp.Body)
		body <- string(b)
	}()
	time.Sleep(300 * time.Millisecond)
	c.Process.Signal(syscall.SIGINT)
	if b := <-body; b != "done" {
		failing(t, "interrupted during a request, which ended with %q", b)
	}
	rest, _ := io.ReadAll(pr)
	err = c.Wait()
	if err != nil || !strings.Contains(string(rest), "HOOK\nRETURNED") {
		failing(t, "interrupted: exit %v, output %q", err, rest)
	}
}
