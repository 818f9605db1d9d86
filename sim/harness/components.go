package main

// component tells, for the evidence, what ran for real and what was simulated.
type component struct {
	Real, Stub, Assume []string
}

const (
	rtStub   = "goroutine scheduler, channels, select, mutexes, wait groups, timers and the clock: simulator (coroutines, one runs at a time, virtual time)"
	reqStub  = "remote side: simulated BlockSourceRequester serving ranges of the generated reference file, with faults"
	inStub   = "local input and output: simulated reader/writer with faults"
	diskStub = "operating system files, process exit and standard streams: simulated in-memory file system with faults and kill points"
	httpStub = "HTTP server and network: simulated RoundTripper (net/http client code above it is real)"
)

var components = map[string]component{}

func init() {
	core := []string{"rsync.go", "comparer", "circularbuffer", "rollsum", "index", "indexbuilder", "chunks", "filechecksum", "patcher/sequential", "blocksources"}
	patch := component{Real: core, Stub: []string{rtStub, reqStub, inStub},
		Assume: []string{"The source returns true reference data or has a verifier.", "The content of the local file does not change between matching and copying, except that it may become shorter or fail.", "MD5 has no collisions among the generated blocks."}}
	for _, p := range []string{"C01", "C02", "C03", "C04", "C11"} {
		components[p] = patch
	}
	src := component{Real: []string{"blocksources", "filechecksum (verifier)"}, Stub: []string{rtStub, reqStub, "clients of the block source: simulated requesters and consumers"}}
	for _, p := range []string{"C05", "C06", "C07", "C08", "C19"} {
		components[p] = src
	}
	match := component{Real: []string{"comparer", "circularbuffer", "rollsum", "index", "indexbuilder", "chunks", "filechecksum", "rsync.go (C10)"}, Stub: []string{rtStub, inStub},
		Assume: []string{"MD5 has no collisions among the generated blocks."}}
	components["C09"], components["C10"] = match, match
	gen := component{Real: []string{"filechecksum", "chunks", "indexbuilder", "index", "rollsum", "comparer (C13)"}, Stub: []string{rtStub, inStub}}
	components["C12"], components["C13"], components["C14"] = gen, gen, gen
	components["C25"] = component{Real: core, Stub: []string{rtStub, inStub, "remote file: simulated seekable reader with faults"}}
	file := component{Real: append([]string{"net/http client"}, core...), Stub: []string{rtStub, diskStub, httpStub},
		Assume: []string{"A kill ends the process; what it wrote before is kept (no power loss).", "Other programs leave the files alone meanwhile."}}
	components["C15"], components["C16"], components["C17"] = file, file, file
	components["C18"] = component{Real: []string{"blocksources", "net/http client"}, Stub: []string{rtStub, httpStub}}
	components["C20"] = component{Real: append([]string{"cmd/gosync", "urfave/cli", "net/http client"}, core...), Stub: []string{rtStub, diskStub, httpStub},
		Assume: []string{"A kill ends the process; what it wrote before is kept (no power loss).", "Damage to the size fields of the index header is not detectable in its format and not injected."}}
	components["C26"] = component{Real: []string{"cmd/gosync (build, diff)", "urfave/cli", "comparer", "circularbuffer", "rollsum", "index", "chunks", "filechecksum"}, Stub: []string{rtStub, diskStub}}
	components["C27"] = component{Real: append([]string{"net/http client"}, core...), Stub: []string{rtStub, reqStub, inStub, diskStub, httpStub},
		Assume: []string{"Operations that run at the same time have different output files and sources; they may share an input, a summary and an index."}}
	components["C28"] = component{Real: append([]string{"cmd/gosync", "urfave/cli", "net/http client", "memory accesses: compiled with the race instrumentation of the Go compiler, ThreadSanitizer run time"}, core...), Stub: []string{rtStub + "; happens-before of each as in the Go memory model", reqStub, inStub, diskStub, httpStub},
		Assume: []string{"The detector keeps the last few accesses of each word; a race is seen if both accesses are among them.", "What the simulated side and the harness do to memory is not watched, except buffers given to and taken from reads, writes and consumers."}}
	components["C29"] = component{Real: []string{"util/readers"}, Stub: []string{rtStub, "inner readers: simulated, with short reads and errors"}}
	components["C21"] = component{Real: []string{"patcher/sequential", "patcher"}, Stub: []string{rtStub, inStub, "block source: simulated, conforming or failing"}}
}
