package middleware

import (
	"fmt"
	"net/http"

	"github.com/zenazn/goji/web"
)

// What follows a mark is compared with the state at the mark.
func zzMark() {}

func zzID(c *web.C) string { return "" }

func zzCheckCalled(w http.ResponseWriter, r, r2 *http.Request, id string)            {}
func zzCheckWriteHeader(w http.ResponseWriter, code int, sent bool)                  {}
func zzCheckWrite(w http.ResponseWriter, buf []byte, n int, err error, sent bool)    {}
func zzCheckHeaders(h http.Header, w http.ResponseWriter)                            {}
func zzCheckEnd(w http.ResponseWriter, calls int, sent bool, want string, id string) {}

// The logger around a handler that sends what next chooses.
func zzLogger(c *web.C, w http.ResponseWriter, r *http.Request, next func() (int, int, []byte)) {
	calls := 0
	var sent bool
	var code int
	id := zzID(c)
	h := Logger(c, http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		zzCheckCalled(w, r, r2, id)
		calls++
		s, cd := false, 0
		for {
			op, c, buf := next()
			zzMark()
			if op == 0 {
				break
			} else if op == 1 {
				w2.WriteHeader(c)
				zzCheckWriteHeader(w, c, s)
				if !s {
					s, cd = true, c
				}
			} else if op == 2 {
				n, err := w2.Write(buf)
				zzCheckWrite(w, buf, n, err, s)
				if !s {
					s, cd = true, 200
				}
			} else {
				zzCheckHeaders(w2.Header(), w)
			}
		}
		sent, code = s, cd
		zzMark()
	}))
	zzMark()
	h.ServeHTTP(w, r)
	if !sent {
		code = 200
	}
	zzCheckEnd(w, calls, sent, fmt.Sprintf("%03d", code), id)
}
