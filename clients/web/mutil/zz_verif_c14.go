package mutil

import (
	"io"
	"net/http"
)

// What follows a mark is compared with the state at the mark.
func zzMark() {}

func zzCheckWrap(w http.ResponseWriter, fl, hj, rf, pfl, phj, prf bool) {}
func zzCheckHeader(w http.ResponseWriter, h http.Header)                {}
func zzCheckWriteHeader(w http.ResponseWriter, code int, sent bool)     {}
func zzCheckWrite(w http.ResponseWriter, buf []byte, n int, err error, sent bool, tee io.Writer) {
}
func zzCheckReadFrom(w http.ResponseWriter, r io.Reader, n int64, err error, sent bool) {}
func zzCheckCopied(w http.ResponseWriter, sent bool, tee io.Writer)                     {}
func zzCheckChunk(buf []byte, n int, err error)                                         {}
func zzCheckFlush(w http.ResponseWriter)                                                {}
func zzCheckHijack(w http.ResponseWriter)                                               {}
func zzCheckPush(w http.ResponseWriter, target string, err error, ok bool)              {}
func zzCheckState(w, u http.ResponseWriter, status, code, bytes, total int)             {}

func zzWroteHeader() bool { return false }

// The response proxy under an arbitrary sequence of calls, chosen by next.
func zzProxy(w http.ResponseWriter, next func() (int, int, []byte, io.Reader, io.Writer)) {
	zzMark()
	p := WrapWriter(w)
	{
		_, fl := w.(http.Flusher)
		_, hj := w.(http.Hijacker)
		_, rf := w.(io.ReaderFrom)
		_, pfl := p.(http.Flusher)
		_, phj := p.(http.Hijacker)
		_, prf := p.(io.ReaderFrom)
		zzCheckWrap(w, fl, hj, rf, pfl, phj, prf)
	}
	sent, code, total := false, 0, 0
	var tee io.Writer
	for {
		op, c, buf, r, tw := next()
		zzMark()
		switch op {
		case 0:
			return
		case 1:
			p.WriteHeader(c)
			zzCheckWriteHeader(w, c, sent)
			if !sent {
				sent, code = true, c
			}
		case 2:
			n, err := p.Write(buf)
			zzCheckWrite(w, buf, n, err, sent, tee)
			if !sent {
				sent, code = true, 200
			}
			total += n
		case 3:
			if rf, ok := p.(io.ReaderFrom); ok {
				n, err := rf.ReadFrom(r)
				if tee == nil {
					zzCheckReadFrom(w, r, n, err, sent)
				} else {
					zzCheckCopied(w, sent, tee)
				}
				if zzWroteHeader() && !sent {
					sent, code = true, 200
				}
				total += int(n)
			}
		case 4:
			p.Tee(tw)
			tee = tw
		case 5:
			h := p.Header()
			zzCheckHeader(w, h)
		case 6:
			if f, ok := p.(http.Flusher); ok {
				f.Flush()
				zzCheckFlush(w)
			}
		case 7:
			if f, ok := p.(http.Hijacker); ok {
				f.Hijack()
				zzCheckHijack(w)
			}
		case 8:
			if f, ok := p.(http.Pusher); ok {
				err := f.Push("x", nil)
				_, ok := w.(http.Pusher)
				zzCheckPush(w, "x", err, ok)
			}
		}
		zzCheckState(w, p.Unwrap(), p.Status(), code, p.BytesWritten(), total)
	}
}

// A model of io.Copy: chunks of any content are written until the source or
// the destination fails or the source ends.
func zzCopy(dst io.Writer, src io.Reader) (n int64, err error) {
	for {
		buf, end, err := zzRead(src)
		if len(buf) > 0 {
			zzMark2()
			nw, ew := dst.Write(buf)
			zzCheckChunk(buf, nw, ew)
			n += int64(nw)
			if ew != nil {
				return n, ew
			}
			if nw != len(buf) {
				return n, io.ErrShortWrite
			}
		}
		if end {
			return n, err
		}
	}
}

func zzMark2() {}

func zzRead(src io.Reader) (buf []byte, end bool, err error) { return nil, true, nil }
