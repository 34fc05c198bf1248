package middleware

import (
	"net/http"

	"github.com/zenazn/goji/web"
)

// What follows a mark is compared with the state at the mark.
func zzMark() {}

func zzCheckArgs(w, w2 http.ResponseWriter, r, r2 *http.Request, options bool)                  {}
func zzCheckHeader(w http.ResponseWriter, h http.Header, hd http.Header)                        {}
func zzCheckSwallow(w http.ResponseWriter, c *web.C, methods []string, hd http.Header)          {}
func zzCheckWriteHeader(w http.ResponseWriter, code int, hd http.Header)                        {}
func zzCheckWrite(w http.ResponseWriter, buf []byte, n int, err error, hd http.Header)          {}
func zzCheckSwallowedWrite(w http.ResponseWriter, buf []byte, n int, err error, hd http.Header) {}

func zzMethods(c *web.C) []string {
	m, _ := c.Env[web.ValidMethodsKey].([]string)
	return m
}

// AutomaticOptions around a handler that performs an arbitrary sequence of
// response actions, chosen by next (which may also change anything else); hd
// stands for any header map.
func zzOptions(c *web.C, w http.ResponseWriter, r *http.Request, hd http.Header, next func() (int, int, []byte)) (calls int) {
	options := r.Method == "OPTIONS"
	h := http.HandlerFunc(func(w2 http.ResponseWriter, r2 *http.Request) {
		calls++
		zzCheckArgs(w, w2, r, r2, options)
		if !options {
			return
		}
		mode := 0 // 0: nothing sent, 1: passing on, 2: answered, swallowing
		for {
			op, code, buf := next()
			switch op {
			case 0:
				return
			case 1:
				zzMark()
				h := w2.Header()
				zzCheckHeader(w, h, hd)
			case 2:
				m := zzMethods(c)
				zzMark()
				w2.WriteHeader(code)
				if mode == 0 && code == 404 && m != nil {
					zzCheckSwallow(w, c, m, hd)
					mode = 2
				} else if mode != 2 {
					zzCheckWriteHeader(w, code, hd)
					mode = 1
				}
			case 3:
				zzMark()
				n, err := w2.Write(buf)
				if mode == 2 {
					zzCheckSwallowedWrite(w, buf, n, err, hd)
				} else {
					zzCheckWrite(w, buf, n, err, hd)
					mode = 1
				}
			}
		}
	})
	AutomaticOptions(c, h).ServeHTTP(w, r)
	return calls
}
