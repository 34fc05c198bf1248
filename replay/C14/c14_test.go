package zzverif

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"testing"

	"github.com/zenazn/goji/web/mutil"
)

// rec records what reaches the wrapped writer.
type rec struct {
	h     http.Header
	log   []string
	short bool // accept only half of each write, with an error
	fail  bool // fail writes after accepting them
	err   error
}

func (r *rec) Header() http.Header  { r.log = append(r.log, "Header"); return r.h }
func (r *rec) WriteHeader(code int) { r.log = append(r.log, fmt.Sprintf("WriteHeader %d", code)) }
func (r *rec) take(n int) (int, error) {
	if r.short {
		return n / 2, r.err
	}
	if r.fail {
		return n, r.err
	}
	return n, nil
}
func (r *rec) Write(b []byte) (int, error) {
	r.log = append(r.log, fmt.Sprintf("Write %q", b))
	return r.take(len(b))
}
func (r *rec) flush() { r.log = append(r.log, "Flush") }
func (r *rec) hijack() (net.Conn, *bufio.ReadWriter, error) {
	r.log = append(r.log, "Hijack")
	return nil, nil, errors.New("hijacked")
}
func (r *rec) readFrom(src io.Reader) (int64, error) {
	b, _ := io.ReadAll(src)
	r.log = append(r.log, fmt.Sprintf("ReadFrom %q", b))
	n, err := r.take(len(b))
	return int64(n), err
}

type fl struct{ *rec }
type hj struct{ *rec }
type rf struct{ *rec }
type pu struct{ *rec }

func (f fl) Flush()                                       { f.flush() }
func (f hj) Hijack() (net.Conn, *bufio.ReadWriter, error) { return f.hijack() }
func (f rf) ReadFrom(r io.Reader) (int64, error)          { return f.readFrom(r) }
func (f pu) Push(t string, o *http.PushOptions) error {
	f.log = append(f.log, "Push "+t)
	return errors.New("pushed")
}

func TestReplayProxy(t *testing.T) {
	rnd := seeded()
	rounds := 20000
	if thorough() {
		rounds = 200000
	}
	type ff interface {
		http.Flusher
		http.Hijacker
		io.ReaderFrom
	}
	ops := 0
	for round := 0; round < rounds; round++ {
		r := &rec{h: http.Header{}, err: errors.New("broken"), short: rnd.Intn(4) == 0, fail: rnd.Intn(4) == 0}
		full, push := false, false
		var w http.ResponseWriter
		what := ""
		switch rnd.Intn(8) {
		case 0:
			w, what = r, "plain"
		case 1:
			w, what = struct {
				*rec
				http.Flusher
			}{r, fl{r}}, "Flusher"
		case 2:
			w, what = struct {
				*rec
				http.Hijacker
				io.ReaderFrom
			}{r, hj{r}, rf{r}}, "Hijacker+ReaderFrom"
		case 3:
			w, what = struct {
				*rec
				http.Flusher
				http.Hijacker
			}{r, fl{r}, hj{r}}, "Flusher+Hijacker"
		case 4:
			w, what = struct {
				*rec
				http.Flusher
				http.Hijacker
				io.ReaderFrom
				http.Pusher
			}{r, fl{r}, hj{r}, rf{r}, pu{r}}, "all+Pusher"
			full, push = true, true
		default:
			w, what = struct {
				*rec
				http.Flusher
				http.Hijacker
				io.ReaderFrom
			}{r, fl{r}, hj{r}, rf{r}}, "Flusher+Hijacker+ReaderFrom"
			full = true
		}
		p := mutil.WrapWriter(w)
		hist := "wrapped writer: " + what + fmt.Sprintf(" (short %v, failing %v):", r.short, r.fail)
		_, isF := w.(http.Flusher)
		_, isH := w.(http.Hijacker)
		_, isR := w.(io.ReaderFrom)
		_, pF := p.(http.Flusher)
		_, pH := p.(http.Hijacker)
		_, pR := p.(io.ReaderFrom)
		if full && !(pF && pH && pR) || pF && !isF || pH && !isH || pR && !isR {
			failing(t, "%s proxy has Flusher %v Hijacker %v ReaderFrom %v", hist, pF, pH, pR)
		}
		sent, code, total := false, 0, 0
		var tee *bytes.Buffer
		var teeErr error
		teed := ""
		for i, n := 0, 1+rnd.Intn(8); i < n; i++ {
			ops++
			r.log = nil
			var want []string
			got := ""
			wantRes := ""
			head := func() {
				if !sent {
					want = append(want, "WriteHeader 200")
					sent, code = true, 200
				}
			}
			body := strings.Repeat("ab", rnd.Intn(4))
			op := rnd.Intn(9)
			hist += fmt.Sprintf(" op%d(%q)", op, body)
			wantTee := ""
			failsTee := false
			switch op {
			case 0:
				c := []int{200, 404, 500, 101, 0}[rnd.Intn(5)]
				p.WriteHeader(c)
				hist += fmt.Sprint("=WriteHeader ", c)
				if !sent {
					want = append(want, fmt.Sprintf("WriteHeader %d", c))
					sent, code = true, c
				}
			case 1, 2:
				a, err := p.Write([]byte(body))
				head()
				want = append(want, fmt.Sprintf("Write %q", body))
				wa, werr := r.take(len(body))
				wantTee = body[:wa]
				if werr == nil && tee != nil {
					werr = teeErr
				}
				total += wa
				got, wantRes = fmt.Sprint(a, err), fmt.Sprint(wa, werr)
			case 3, 4:
				f, ok := p.(io.ReaderFrom)
				if !ok {
					continue
				}
				if tee != nil {
					// what a copy does is up to io.Copy: compare the outcome
					before := len(r.log)
					a, _ := f.ReadFrom(struct{ io.Reader }{strings.NewReader(body)})
					if body != "" {
						head()
						want = append(want, fmt.Sprintf("Write %q", body))
						wa, _ := r.take(len(body))
						total += wa
						wantTee = body[:wa]
						got, wantRes = fmt.Sprint(a), fmt.Sprint(wa)
					}
					_ = before
					break
				}
				a, err := f.ReadFrom(strings.NewReader(body))
				head()
				want = append(want, fmt.Sprintf("ReadFrom %q", body))
				wa, werr := r.take(len(body))
				total += wa
				got, wantRes = fmt.Sprint(a, err), fmt.Sprint(wa, werr)
			case 5:
				if rnd.Intn(3) == 0 {
					p.Tee(nil)
					tee = nil
				} else {
					tee = &bytes.Buffer{}
					teed = ""
					teeErr = nil
					if rnd.Intn(4) == 0 {
						teeErr = errors.New("tee broken")
						failsTee = true
						p.Tee(failing2{tee, teeErr})
					} else {
						p.Tee(tee)
					}
				}
				_ = failsTee
			case 6:
				h := p.Header()
				want = append(want, "Header")
				h.Set("X", "y")
				if r.h.Get("X") != "y" {
					failing(t, "%s another header map", hist)
				}
			case 7:
				if f, ok := p.(http.Flusher); ok {
					f.Flush()
					want = append(want, "Flush")
				}
			case 8:
				if f, ok := p.(http.Hijacker); ok && rnd.Intn(2) == 0 {
					_, _, err := f.Hijack()
					want = append(want, "Hijack")
					got, wantRes = fmt.Sprint(err), "hijacked"
				} else if f, ok := p.(http.Pusher); ok {
					var err error
					func() {
						defer func() {
							if e := recover(); e != nil {
								failing(t, "%s Push panics: %v", hist, e)
							}
						}()
						err = f.Push("/x", nil)
					}()
					if push {
						want = append(want, "Push /x")
						got, wantRes = fmt.Sprint(err), "pushed"
					} else if err == nil {
						failing(t, "%s Push without a pusher succeeds", hist)
					}
				}
			}
			if a, b := strings.Join(r.log, ","), strings.Join(want, ","); a != b {
				failing(t, "%s the wrapped writer saw [%s], want [%s]", hist, a, b)
			}
			if got != wantRes {
				failing(t, "%s returned %s, want %s", hist, got, wantRes)
			}
			if tee != nil {
				teed += wantTee
				if tee.String() != teed {
					failing(t, "%s the tee got %q, want %q", hist, tee, teed)
				}
			}
			if p.Status() != code || p.BytesWritten() != total || p.Unwrap() != w {
				failing(t, "%s Status %d, want %d; BytesWritten %d, want %d", hist, p.Status(), code, p.BytesWritten(), total)
			}
		}
	}
	fmt.Printf("REPLAY response proxy: %d histories, %d operations\n", rounds, ops)
}

// failing2 accepts everything and reports an error.
type failing2 struct {
	b   *bytes.Buffer
	err error
}

func (f failing2) Write(p []byte) (int, error) { f.b.Write(p); return len(p), f.err }
