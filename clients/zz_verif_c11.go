package goji

import (
	"net/http"

	"github.com/zenazn/goji/web"
)

// The package-level function of the k-th verb.
func zzVerb(k int, p web.Pattern, h web.Handler) {
	switch k {
	case 0:
		Handle(p, h)
	case 1:
		Connect(p, h)
	case 2:
		Delete(p, h)
	case 3:
		Get(p, h)
	case 4:
		Head(p, h)
	case 5:
		Options(p, h)
	case 6:
		Patch(p, h)
	case 7:
		Post(p, h)
	case 8:
		Put(p, h)
	case 9:
		Trace(p, h)
	}
}

func zzNotFound(h web.Handler) { NotFound(h) }

func zzUse(mw func(*web.C, http.Handler) http.Handler) { Use(mw) }

func zzInsert(mw, before func(*web.C, http.Handler) http.Handler) error { return Insert(mw, before) }

func zzAbandon(mw func(*web.C, http.Handler) http.Handler) error { return Abandon(mw) }
