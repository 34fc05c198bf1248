package bind
alias LISTEN = "net.Listen"
alias NEWFILE = "os.NewFile"
alias FILEL = "net.FileListener"
alias DIAL = "net.Dial"
alias FPRINTF = "fmt.Fprintf"
alias CONNW = "(net.Conn).Write"
alias DECL = "github.com/zenazn/goji/bind.zzDeclared"

# ---- assumed contracts of the standard library ----
# the environment, the process numbers, and what strconv makes of a number
fn env(string) string
fn pid() int
fn ppid() int
fn number(string) bool
fn value(string) int

extern "os.Getenv"(k) (v)
  pure
  ensures v == env(k)

extern "os.LookupEnv"(k) (v, ok)
  pure
  ensures v == env(k)

extern "os.Getpid"() (p)
  pure
  ensures p == pid()

extern "os.Getppid"() (p)
  pure
  ensures p == ppid()

extern "strconv.Atoi"(s) (n, err)
  pure
  ensures iff(err == nil, number(s))
  ensures err == nil ==> n == value(s) && n <= 9223372036854775807

extern "net.Listen"(network, addr) (l, err)
  event
  ensures err == nil ==> l != nil

extern "net.FileListener"(f) (l, err)
  event
  ensures err == nil ==> l != nil

extern "os.NewFile"(fd, name) (f)
  event

extern "net.Dial"(network, addr) (c, err)
  event
  ensures err == nil ==> c != nil

extern "(*os.File).Close"(f) (err)
  event

extern "syscall.CloseOnExec"(fd)

model "flag.StringVar" = zzStringVar

client zzDeclared(p, name, value)
  trusted
  event

extern "log.Fatal"(v)
  fatal

extern "log.Fatalf"(f, v)
  fatal

extern "log.Fatalln"(v)
  fatal

# ---- what the environment says ----
def master() = number(env("EINHORN_MASTER_PID")) && value(env("EINHORN_MASTER_PID")) == ppid()
def passed() = ite(master() && number(env("EINHORN_FD_COUNT")), value(env("EINHORN_FD_COUNT")), 0)
def forUs() = number(env("LISTEN_PID")) && value(env("LISTEN_PID")) == pid()
def activated() = ite(forUs() && number(env("LISTEN_FDS")), value(env("LISTEN_FDS")), 0)
def sniffed() = ite(env("GOJI_BIND") != "", env("GOJI_BIND"), ite(passed() > 0, "einhorn@0", ite(activated() > 0, "fd@3", ite(env("PORT") != "", cat(":", env("PORT")), ""))))

# ---- the kinds of bind strings ----
def colon(b) = hasbyte(b, 58)
def isUnix(b) = !colon(b) && (pfx(".", b) || pfx("/", b))
def isFd(b) = !colon(b) && pfx("fd@", b)
def isEin(b) = !colon(b) && pfx("einhorn@", b)
def fdText(b) = sub(b, 3, len(b))
def einText(b) = sub(b, 8, len(b))
def einVar(n) = cat("EINHORN_FD_", decimal(n))
def descr(b) = ite(isFd(b), value(fdText(b)), value(env(einVar(value(einText(b))))))
# the descriptor that the bind string names, if any
def named(b) = isFd(b) && number(fdText(b)) || isEin(b) && number(einText(b)) && value(einText(b)) >= 0 && value(einText(b)) < passed() && number(env(einVar(value(einText(b)))))
def opened(b) = n(NEWFILE) == 1 && (descr(b) >= 0 ==> arg(NEWFILE, 0, 0, uintptr) == descr(b))
def file() = res(NEWFILE, 0, 0, *os.File)
def quiet() = n(LISTEN) == 0 && n(NEWFILE) == 0 && n(FILEL) == 0
def listens(b, net, l) = n(LISTEN) == 1 && called(LISTEN, 0, net, b) && res(LISTEN, 0, 1, error) == nil && l == res(LISTEN, 0, 0, net.Listener) && n(NEWFILE) == 0 && n(FILEL) == 0
def inherits(b, l) = opened(b) && file() != nil && n(FILEL) == 1 && called(FILEL, 0, file()) && res(FILEL, 0, 1, error) == nil && l == res(FILEL, 0, 0, net.Listener) && n(LISTEN) == 0

def bound(b, l) = l != nil && (colon(b) ==> listens(b, "tcp", l)) && (isUnix(b) ==> listens(b, "unix", l)) && (!colon(b) && !isUnix(b) ==> named(b) && inherits(b, l))
def failsListen(b, net) = n(LISTEN) == 1 && called(LISTEN, 0, net, b) && res(LISTEN, 0, 1, error) != nil && n(NEWFILE) == 0 && n(FILEL) == 0
def failsFile(b) = opened(b) && n(LISTEN) == 0 && ite(file() == nil, n(FILEL) == 0, n(FILEL) == 1 && called(FILEL, 0, file()) && res(FILEL, 0, 1, error) != nil)
def failed(b) = ite(colon(b), failsListen(b, "tcp"), ite(isUnix(b), failsListen(b, "unix"), ite(named(b), failsFile(b), quiet())))
# einhorn promised more sockets than it describes in the environment
def einhornBroken() = passed() > 0

client zzSocket(b) (l)
  prop C25
  runinits
  requires quiet()
  ensures [bound] bound(b, l)
  onfatal [error] failed(b) || einhornBroken() && quiet()

client zzSniff() (s)
  prop C25
  runinits
  ensures [default] s == sniffed()
  onfatal [einhorn] einhornBroken()

client zzValue() (s)
  trusted
  event

def fallback() = ite(sniffed() != "", sniffed(), ":8000")
def chosen() = res("github.com/zenazn/goji/bind.zzValue", 0, 0, string)

client zzDefault() (l)
  prop C25
  runinits
  requires quiet() && n(DECL) == 0 && n("github.com/zenazn/goji/bind.zzValue") == 0
  ensures [flag] n(DECL) == 1 && arg(DECL, 0, 1, string) == "bind" && arg(DECL, 0, 2, string) == fallback()
  ensures [bound] bound(chosen(), l)
  onfatal [error] einhornBroken() && quiet() || failed(chosen())

def ackText() = cat(cat("{\"command\": \"worker:ack\", \"pid\": ", decimal(pid())), "}\n")

client zzReady()
  prop C25
  runinits
  inv n(DIAL) <= 1 && n(FPRINTF) + n(CONNW) <= 1
  requires n(DIAL) == 0 && n(FPRINTF) == 0 && n(CONNW) == 0 && n("once.end") == 0
  ensures [once] n(DIAL) <= 1 && n(FPRINTF) + n(CONNW) <= 1
  ensures [only-einhorn] passed() <= 0 ==> n(DIAL) == 0 && n(FPRINTF) + n(CONNW) == 0
  ensures [ack] passed() > 0 && n("once.end") > 0 ==> n(DIAL) == 1 && called(DIAL, 0, "unix", env("EINHORN_SOCK_PATH")) && res(DIAL, 0, 1, error) == nil && n(FPRINTF) + n(CONNW) == 1
  ensures [text] n(FPRINTF) == 1 ==> arg(FPRINTF, 0, 0, net.Conn) == res(DIAL, 0, 0, net.Conn) && arg(FPRINTF, 0, 1, string) == ackText()
  onfatal [once] n(DIAL) <= 1 && n(FPRINTF) + n(CONNW) <= 1
  onfatal [only-einhorn] einhornBroken()

client zzAgain() (b)
  trusted
  event
