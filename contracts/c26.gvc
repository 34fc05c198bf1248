package bind
func WithFlag()
  trusted
  event

func Default() (l)
  trusted
  event

func Ready()
  trusted
  event

package graceful
func DoubleKickWindow(d)
  trusted
  event

func HandleSignals()
  trusted
  event

func PreHook(f)
  trusted
  event

func PostHook(f)
  trusted
  event

func Serve(l, h) (err)
  trusted
  event

func Wait()
  trusted
  event

package web
func New() (m)
  trusted
  event
  ensures m != nil

func (*Mux).Use(m, f)
  trusted
  event

func (*Mux).Insert(m, f, before) (err)
  trusted
  event

func (*Mux).Abandon(m, f) (err)
  trusted
  event

func (*Mux).Compile(m)
  trusted
  event

package github.com/zenazn/goji
alias NEW = "github.com/zenazn/goji/web.New"
alias USE = "github.com/zenazn/goji/web.(*Mux).Use"
alias INSERT = "github.com/zenazn/goji/web.(*Mux).Insert"
alias ABANDON = "github.com/zenazn/goji/web.(*Mux).Abandon"
alias COMPILE = "github.com/zenazn/goji/web.(*Mux).Compile"
alias EXPECT = "github.com/zenazn/goji.zzExpect"
alias FLAG = "github.com/zenazn/goji/bind.WithFlag"
alias LISTENER = "github.com/zenazn/goji/bind.Default"
alias READY = "github.com/zenazn/goji/bind.Ready"
alias SIGNALS = "github.com/zenazn/goji/graceful.HandleSignals"
alias SERVE = "github.com/zenazn/goji/graceful.Serve"
alias WAIT = "github.com/zenazn/goji/graceful.Wait"
alias HANDLE = "net/http.Handle"
alias PARSE = "flag.Parse"
alias NEWL = "crypto/tls.NewListener"

client zzExpect(m)
  trusted
  event

extern "net/http.Handle"(pattern, h)
  event

extern "(*net/http.ServeMux).Handle"(m, pattern, h)
  event

extern "flag.Parsed"() (ok)
  event

extern "flag.Parse"()
  event

extern "crypto/tls.NewListener"(inner, config) (l)
  event
  ensures l != nil

extern "(net.Listener).Addr"(l) (a)
  event

extern "log.Flags"() (f)
  pure

extern "log.SetFlags"(f)
  event

extern "log.Fatal"(v)
  event
  fatal

extern "log.Fatalf"(f, v)
  event
  fatal

extern "log.Fatalln"(v)
  event
  fatal

def used(i) = arg(USE, i, 0, *web.Mux) == DefaultMux && arg(USE, i, 1, any) == arg(EXPECT, i, 0, any)
client zzInit()
  prop C26
  runinits
  requires n(USE) == 0 && n(INSERT) == 0 && n(ABANDON) == 0 && n(EXPECT) == 0 && n(NEW) == 0 && n(FLAG) == 0
  ensures [own-mux] n(NEW) == 1 && DefaultMux == res(NEW, 0, 0, *web.Mux)
  ensures [stack] n(USE) == 4 && used(0) && used(1) && used(2) && used(3)
  ensures [nothing-else] n(INSERT) == 0 && n(ABANDON) == 0
  ensures [bind-flag] n(FLAG) == 1

def nothing() = n(COMPILE) == 0 && n(HANDLE) == 0 && n(SIGNALS) == 0 && n(READY) == 0 && n(SERVE) == 0 && n(WAIT) == 0 && n(LISTENER) == 0 && n(NEWL) == 0 && n(PARSE) == 0
def started(l) = n(COMPILE) == 1 && called(COMPILE, 0, old(DefaultMux)) && n(HANDLE) == 1 && arg(HANDLE, 0, 0, string) == "/" && arg(HANDLE, 0, 1, http.Handler) == box(old(DefaultMux)) && n(SIGNALS) == 1 && n(READY) == 1 && n(SERVE) == 1 && called(SERVE, 0, l, box(old(http.DefaultServeMux)))
def inOrder() = time(COMPILE, 0) < time(SERVE, 0) && time(HANDLE, 0) < time(SERVE, 0) && time(SIGNALS, 0) < time(READY, 0) && time(READY, 0) < time(SERVE, 0)
def stopped() = res(SERVE, 0, 0, error) == nil && n(WAIT) == 1 && time(SERVE, 0) < time(WAIT, 0)
def failed() = n(SERVE) == 1 && res(SERVE, 0, 0, error) != nil && n(WAIT) == 0

client zzListener(l)
  prop C26
  requires DefaultMux != nil && l != nil && nothing()
  ensures [started] started(l)
  ensures [order] inOrder()
  ensures [stopped] stopped()
  onfatal [started] started(l)
  onfatal [order] inOrder()
  onfatal [failed] failed()

def theListener() = n(LISTENER) == 1 && (n(PARSE) > 0 ==> time(PARSE, n(PARSE)-1) < time(LISTENER, 0))
def parsed() = res("flag.Parsed", 0, 0, bool) || n(PARSE) == 1

client zzServe()
  prop C26
  nosafety
  requires DefaultMux != nil && nothing() && n("flag.Parsed") == 0
  ensures [flags] parsed()
  ensures [listener] theListener()
  ensures [served] n(SERVE) == 1 && arg(SERVE, 0, 0, net.Listener) == res(LISTENER, 0, 0, net.Listener)
  ensures [order] inOrder()
  ensures [stopped] stopped()
  onfatal [failed] failed()

client zzServeTLS(c)
  prop C26
  nosafety
  requires DefaultMux != nil && nothing() && n("flag.Parsed") == 0
  ensures [flags] parsed()
  ensures [listener] theListener()
  ensures [tls] n(NEWL) == 1 && called(NEWL, 0, res(LISTENER, 0, 0, net.Listener), c)
  ensures [served] n(SERVE) == 1 && arg(SERVE, 0, 0, net.Listener) == res(NEWL, 0, 0, net.Listener)
  ensures [order] inOrder()
  ensures [stopped] stopped()
  onfatal [failed] failed()
