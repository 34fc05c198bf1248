package bind

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

func failing(t *testing.T, format string, args ...interface{}) {
	fmt.Printf("FAILING INPUT: "+format+"\n", args...)
	t.FailNow()
}

var names = []string{"GOJI_BIND", "PORT", "EINHORN_MASTER_PID", "EINHORN_FD_COUNT", "EINHORN_FD_0", "EINHORN_FD_1", "EINHORN_SOCK_PATH", "LISTEN_PID", "LISTEN_FDS"}

func environment(env map[string]string) {
	for _, n := range names {
		os.Unsetenv(n)
	}
	for k, v := range env {
		os.Setenv(k, v)
	}
	einhornNumFds, systemdNumFds = 0, 0
	einhornInit()
	systemdInit()
}

func TestReplaySniff(t *testing.T) {
	ppid, pid := strconv.Itoa(os.Getppid()), strconv.Itoa(os.Getpid())
	for _, gb := range []string{"", ":1234"} {
		for _, port := range []string{"", "99"} {
			for _, mp := range []string{"", "x", "1", ppid, pid} {
				for _, ec := range []string{"", "x", "-1", "0", "2"} {
					for _, lp := range []string{"", "x", "1", ppid, pid} {
						for _, lf := range []string{"", "x", "-1", "0", "2"} {
							env := map[string]string{"GOJI_BIND": gb, "PORT": port, "EINHORN_MASTER_PID": mp, "EINHORN_FD_COUNT": ec, "EINHORN_FD_0": "1000", "EINHORN_FD_1": "1001", "LISTEN_PID": lp, "LISTEN_FDS": lf}
							environment(env)
							want := ""
							switch {
							case gb != "":
								want = gb
							case mp == ppid && ec == "2":
								want = "einhorn@0"
							case lp == pid && lf == "2":
								want = "fd@3"
							case port != "":
								want = ":" + port
							}
							if got := Sniff(); got != want {
								failing(t, "Sniff with %v returned %q, not %q", env, got, want)
							}
						}
					}
				}
			}
		}
	}
	environment(nil)
}

func TestReplayListen(t *testing.T) {
	dir := t.TempDir()
	os.Chdir(dir)
	base, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	f, err := base.(*net.TCPListener).File()
	if err != nil {
		t.Skip(err)
	}
	fd := func() string { // a copy of its own, unknown to the runtime
		n, err := syscall.Dup(int(f.Fd()))
		if err != nil {
			t.Skip(err)
		}
		return strconv.Itoa(n)
	}
	type c struct {
		bind, network, addr string
	}
	ppid := strconv.Itoa(os.Getppid())
	run := func(env map[string]string, cs []c) {
		environment(env)
		for _, c := range cs {
			l, err := safely(t, c.bind)
			if c.network == "" {
				if err == nil {
					failing(t, "bind %q under %v: no error (%v)", c.bind, env, l.Addr())
				}
				continue
			}
			if err != nil || l.Addr().Network() != c.network || c.addr != "" && l.Addr().String() != c.addr {
				failing(t, "bind %q under %v: %v %v", c.bind, env, l, err)
			}
		}
	}
	odd := []c{{"", "", ""}, {"fd@", "", ""}, {"fd@x", "", ""}, {"fd@-1", "", ""}, {"fd@99999", "", ""}, {"einhorn@", "", ""}, {"einhorn@x", "", ""}, {"einhorn@-1", "", ""},
		{"einhorn@2", "", ""}, {"einhorn@3", "", ""}, {"fd", "", ""}, {"einhorn", "", ""}, {"fd@3x", "", ""}, {"localhost", "", ""}, {"80", "", ""}, {"Fd@3", "", ""}}
	run(nil, append(odd, []c{{"127.0.0.1:0", "tcp", ""}, {":0", "tcp", ""}, {"./a.sock", "unix", "./a.sock"}, {".b.sock", "unix", ".b.sock"}, {filepath.Join(dir, "c.sock"), "unix", filepath.Join(dir, "c.sock")},
		{"fd@" + fd(), "tcp", base.Addr().String()}, {"einhorn@0", "", ""}, {"einhorn@1", "", ""}, {"./x:0", "", ""}}...))
	env := func() map[string]string {
		return map[string]string{"EINHORN_MASTER_PID": ppid, "EINHORN_FD_COUNT": "2", "EINHORN_FD_0": fd(), "EINHORN_FD_1": fd(), "EINHORN_FD_2": fd()}
	}
	run(env(), append(odd, []c{{"einhorn@0", "tcp", base.Addr().String()}, {"einhorn@1", "tcp", base.Addr().String()}, {"127.0.0.1:0", "tcp", ""}, {"fd@" + fd(), "tcp", base.Addr().String()}}...))
	os.Unsetenv("EINHORN_FD_2")
	environment(nil)
}

func safely(t *testing.T, b string) (l net.Listener, err error) {
	defer func() {
		if r := recover(); r != nil {
			failing(t, "bind %q crashes: %v", b, r)
		}
	}()
	return listenTo(b)
}

func TestReplayReady(t *testing.T) {
	dir := t.TempDir()
	path := filepath.Join(dir, "ctl")
	l, err := net.Listen("unix", path)
	if err != nil {
		t.Skip(err)
	}
	var mu sync.Mutex
	var acks []string
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, _ := bufio.NewReader(c).ReadString('\n')
			mu.Lock()
			acks = append(acks, s)
			mu.Unlock()
			c.Close()
		}
	}()
	environment(map[string]string{"EINHORN_MASTER_PID": strconv.Itoa(os.Getppid()), "EINHORN_FD_COUNT": "1", "EINHORN_FD_0": "1000", "EINHORN_SOCK_PATH": path})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			Ready()
			Ready()
		}()
	}
	wg.Wait()
	time.Sleep(300 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	if len(acks) != 1 || !strings.Contains(acks[0], "worker:ack") || !strings.Contains(acks[0], strconv.Itoa(os.Getpid())) {
		failing(t, "Ready called 16 times, einhorn received %q", acks)
	}
	environment(nil)
}
