package bind

import "net"

// A socket, once the package is initialised.
func zzSocket(b string) net.Listener { return Socket(b) }

func zzSniff() string { return Sniff() }

// The flag is declared, set, and used.
func zzDefault() net.Listener {
	WithFlag()
	return Default()
}

func zzValue() string { return "" }

// The flag package: the variable will hold the value given here, or the one on
// the command line. That may be any string.
func zzStringVar(p *string, name, value, usage string) {
	zzDeclared(p, name, value)
	*p = zzValue()
}

func zzDeclared(p *string, name, value string) {}

// Readiness is signalled any number of times.
func zzReady() {
	Ready()
	for zzAgain() {
		Ready()
	}
}

func zzAgain() bool { return false }
