package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"
	"verif.local/sim/simrt"

	"crypto/md5"
)

func init() {
	register("C18", 65, "http block source, faults", func(c *Ctx) { httpScenario(c, true) })
	register("C18", 35, "http block source, no faults", func(c *Ctx) { httpScenario(c, false) })
	register("C18", 8, "files, faults", func(c *Ctx) { fileScenario(c, fileOpts{faults: true}) })
	http.DefaultTransport = theWeb{}
	http.DefaultClient.Transport = theWeb{}
}

// theWeb is the network of the running simulation.
type theWeb struct{}

var currentWeb *simWeb

// RoundTrip implements http.RoundTripper.
func (theWeb) RoundTrip(r *http.Request) (*http.Response, error) {
	if currentWeb == nil || simrt.Killed() {
		return nil, errors.New("no network")
	}
	// as http.Transport does
	if r.URL.Scheme != "http" && r.URL.Scheme != "https" {
		return nil, fmt.Errorf("unsupported protocol scheme %q", r.URL.Scheme)
	}
	if r.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	return currentWeb.roundTrip(r)
}

// exchange is one request and its response.
type exchange struct {
	id         int
	url, rng   string
	from, to   int64 // requested range, to is exclusive; -1 without a valid range header
	accept     string
	t0, t1     int64
	err        bool // no response
	status     int
	gzip       bool
	sent       []byte // what the body holds
	reset      bool   // the body ends with an error
	endless    bool   // the body does not end
	body       *webBody
	redirected bool
}

// good tells whether this is a complete, uncompressed 206 response of the requested length.
func (x *exchange) good() bool {
	return !x.err && x.status == 206 && !x.gzip && !x.reset && x.from >= 0 && int64(len(x.sent)) == x.to-x.from
}

func (x *exchange) String() string {
	return fmt.Sprintf("%s -> status %d, %d bytes, error %v reset %v endless %v gzip %v", x.rng, x.status, len(x.sent), x.err, x.reset, x.endless, x.gzip)
}

// simWeb is the network with one server.
type simWeb struct {
	c     *Ctx
	files map[string][]byte
	off   int64 // how far into the remote file its content here begins; what is recorded is relative to it
	slow  int
	only  string // only requests for this path fail
	xs    []*exchange
	same  int // the status of every failing response, 0 = any

	connErr, status, reset, short, long, corrupt, gzip, redirect, endless *faulter
}

var webKinds = []string{"http-connection-error", "http-status", "http-reset", "http-short-body", "http-long-body", "http-corrupt-body", "http-gzip", "http-redirect", "http-endless-body"}

// maxExcess is how much of a body that is too long may be read beyond what was asked for.
const maxExcess = 1 << 20

func newWeb(c *Ctx, mask int) *simWeb {
	w := &simWeb{c: c, files: map[string][]byte{}, slow: c.WW("net-slow", 55, 45)}
	for i, f := range []**faulter{&w.connErr, &w.status, &w.reset, &w.short, &w.long, &w.corrupt, &w.gzip, &w.redirect, &w.endless} {
		*f = newFaulter(c, webKinds[i], mask&(1<<i) != 0)
	}
	currentWeb = w
	return w
}

// hit tells whether a fault hits this request.
func (w *simWeb) hit(f *faulter, r *http.Request) bool {
	return (w.only == "" || w.only == r.URL.Path) && f.hit()
}

type webBody struct {
	w      *simWeb
	x      *exchange
	ctx    context.Context
	data   []byte
	err    error
	mode   IOMode
	closed bool
	excess int
}

func (b *webBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if b.x.endless && len(b.data) == 0 && len(p) > 0 {
		if b.excess > maxExcess {
			b.w.c.Fail("C18", "endless", "more than %d bytes were read of a body that does not end, in answer to a request for %d", b.excess, b.x.to-b.x.from)
			return 0, errInjected
		}
		if b.excess < 100 {
			pause(b.w.c, b.mode.slow)
		}
		for i := range p {
			p[i] = 'x'
		}
		simrt.Wrote(p)
		b.excess += len(p)
		return len(p), nil
	}
	pause(b.w.c, b.mode.slow)
	if len(p) == 0 {
		return 0, nil
	}
	if err := b.ctx.Err(); err != nil {
		b.x.reset = true
		return 0, err
	}
	if len(b.data) == 0 {
		return 0, b.err
	}
	n := min(len(p), len(b.data))
	switch b.mode.chunk {
	case 1:
		n = 1 + b.w.c.W("body-chunk", n)
	case 2:
		n = 1
	}
	copy(p, b.data[:n])
	simrt.Wrote(p[:n])
	b.data = b.data[n:]
	if len(b.data) == 0 && b.mode.eofWith == 1 {
		return n, b.err
	}
	return n, nil
}

func (b *webBody) Close() error {
	simrt.Point()
	b.closed = true
	return nil
}

// parseRange parses "bytes=a-b".
func parseRange(h string) (a, b int64, ok bool) {
	r, ok := strings.CutPrefix(h, "bytes=")
	x, y, ok2 := strings.Cut(r, "-")
	a, e1 := strconv.ParseInt(x, 10, 64)
	b, e2 := strconv.ParseInt(y, 10, 64)
	return a, b, ok && ok2 && e1 == nil && e2 == nil && a >= 0 && b >= a
}

func (w *simWeb) roundTrip(r *http.Request) (*http.Response, error) {
	c := w.c
	x := &exchange{id: len(w.xs), url: r.URL.String(), rng: r.Header.Get("Range"), accept: r.Header.Get("Accept-Encoding"), from: -1, to: -1, t0: simrt.Seq()}
	w.xs = append(w.xs, x)
	a, b, ranged := parseRange(x.rng)
	if ranged {
		a, b = a-w.off, b-w.off
		x.from, x.to = a, b+1
	}
	defer func() { x.t1 = simrt.Seq() }()
	simrt.Logf("http request %d: %s %s %s", x.id, r.Method, x.url, x.rng)
	simrt.Note('h', x.id)
	pause(c, w.slow)
	if err := r.Context().Err(); err != nil { // the client gave up
		x.err = true
		return nil, err
	}
	if w.hit(w.connErr, r) {
		x.err = true
		return nil, fmt.Errorf("connection refused or reset: %w", opErr(c))
	}
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r}
	content, ok := w.files[r.URL.Path]
	x.status = 200
	switch {
	case !ok:
		x.status = 404
		content = []byte("not found")
	case x.rng != "" && !ranged:
		x.status, content = 400, nil
	case ranged && (a < 0 || a >= int64(len(content))):
		x.status, content = 416, nil
	case ranged:
		x.status = 206
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", w.off+a, w.off+min(b, int64(len(content))-1), w.off+int64(len(content))))
		content = content[a:min(b+1, int64(len(content)))]
	}
	content = append([]byte(nil), content...)
	endErr := io.EOF
	if w.hit(w.redirect, r) {
		x.redirected = true
		x.status = []int{302, 307, 301, 308, 303}[c.F("redirect-status", 5)]
		resp.Header.Set("Location", r.URL.Path)
		content = []byte("moved")
	} else if w.hit(w.status, r) {
		x.status = w.same
		if x.status == 0 {
			x.status = []int{404, 500, 200, 503, 416, 204, 403, 429, 207, 205}[c.F("http-status-code", 10)]
			if w.status.fired == 1 && c.FC("same-status", 1, 2) {
				w.same = x.status
			}
		}
		if x.status != 200 && c.FC("status-body", 1, 2) {
			content = []byte("an error page")
		} else if x.status == 200 && c.FC("full-body", 1, 2) {
			content = append([]byte(nil), w.files[r.URL.Path]...)
		}
	}
	if w.hit(w.corrupt, r) && len(content) > 0 {
		if c.FC("corrupt-range", 1, 3) && len(w.files[r.URL.Path]) > 0 {
			all := w.files[r.URL.Path]
			at := c.F("corrupt-at", len(all))
			copy(content, all[at:])
		} else {
			for k := 1 + c.F("flips", 3); k > 0; k-- {
				content[c.F("flip-at", len(content))] ^= byte(1 + c.F("flip", 255))
			}
		}
	}
	switch {
	case w.hit(w.reset, r):
		if len(content) > 0 {
			content = content[:cutTo(c, "reset-at", len(content)+1)]
		}
		x.reset = true
		endErr = io.ErrUnexpectedEOF
		if c.FC("reset-other", 1, 2) {
			endErr = fmt.Errorf("connection reset: %w", errInjected)
		}
	case len(content) > 0 && w.hit(w.short, r):
		content = content[:cutTo(c, "short-at", len(content))]
	case w.hit(w.long, r):
		p := prng(c.F("long-seed", 1000))
		content = append(content, p.bytes(1+c.F("long-by", 40), 256)...)
	case w.hit(w.endless, r):
		p := prng(c.F("long-seed", 1000))
		content = append(content, p.bytes(1+c.F("long-by", 40), 256)...)
		x.endless = true
	}
	if w.hit(w.gzip, r) {
		x.gzip = true
		resp.Header.Set("Content-Encoding", []string{"gzip", "GZIP", "x-gzip", "deflate", "br", "gzip, deflate"}[c.F("encoding", 6)])
	} else if c.WC("identity-encoding", 1, 12) {
		resp.Header.Set("Content-Encoding", "identity")
	}
	x.sent = content
	resp.StatusCode, resp.Status = x.status, fmt.Sprintf("%d %s", x.status, http.StatusText(x.status))
	resp.ContentLength = int64(len(content))
	if x.endless || c.WC("chunked", 1, 3) {
		resp.ContentLength = -1
	}
	x.body = &webBody{w: w, x: x, ctx: r.Context(), data: append([]byte(nil), content...), err: endErr, mode: genIOMode(c)}
	resp.Body = x.body
	simrt.Logf("http response %d: %v", x.id, x)
	return resp, nil
}

// missing404 tells whether every response was a 404.
func (w *simWeb) missing404() bool {
	for _, x := range w.xs {
		if x.err || x.status != 404 || x.redirected {
			return false
		}
	}
	return len(w.xs) > 0
}

// openBodies counts response bodies that were not closed.
func (w *simWeb) openBodies() (n int) {
	for _, x := range w.xs {
		if x.body != nil && !x.body.closed {
			n++
		}
	}
	return
}

func (w *simWeb) list() string {
	var s []string
	for i, x := range w.xs {
		if i == 20 {
			s = append(s, "...")
			break
		}
		s = append(s, x.String())
	}
	return strings.Join(s, "; ")
}

// httpScenario runs a block source over simulated HTTP.
func httpScenario(c *Ctx, faulty bool) {
	bs := c.WR("bs", 1, 12)
	n := c.WR("blocks", 1, 14)
	longest, most := 4, 4
	if c.oversized(40) {
		bs, n = hugeShape(c, 5000)
		longest = []int{4, n}[c.W("span-longest", 2)]
		if longest < n/100 {
			longest = n / 100
		}
		most = n
	}
	size := n * bs
	if bs > 1 && c.WC("short-tail", 1, 2) {
		size -= 1 + c.W("tail-cut", bs-1)
	}
	p := prng(c.Src.Seed32('W', "ref-seed"))
	ref := p.bytes(size, 256)
	mask := 0
	if faulty {
		mask = 1 + c.F("fault-mask", 511)
	}
	w := newWeb(c, mask)
	defer func() { currentWeb = nil }()
	w.files["/ref.bin"] = ref
	url := "http://server/ref.bin"
	missingFile := faulty && c.FC("missing-file", 1, 12)
	if missingFile {
		url = "http://server/other.bin"
		c.Fault("http-missing-file")
	}
	malformed := faulty && !missingFile && c.FC("malformed-url", 1, 25)
	if malformed {
		url = []string{"http://server/%zz", "http://[::1/ref.bin", ":ref", "http://ser ver/ref.bin", "", "ftp://server/ref.bin", "/ref.bin", "http://"}[c.F("which-url", 8)]
		c.Fault("http-malformed-url")
	}
	base := genBase(c, bs, n)
	w.off = int64(base * bs)
	verified := c.WC("verified", 1, 3)
	conc := c.WR("concurrency", 1, 5)
	if c.WC("concurrency-high", 1, 16) {
		conc = []int{8, 9, 17, 33, 64, 65, 128}[c.W("concurrency-of", 7)]
	}
	max := 0
	if c.WC("split", 1, 3) {
		max = bs * c.WR("max-request-blocks", 1, most)
		if max < size/100 {
			max = blocksOf(size/100, bs) * bs
		}
	}
	var spans []patcher.MissingBlockSpan
	want := make([]bool, n)
	for at := 0; at < n; {
		end := min(n, at+1+c.W("span-len", longest))
		if c.WC("span", 3, 4) {
			spans = append(spans, patcher.MissingBlockSpan{StartBlock: uint(at), EndBlock: uint(end - 1), BlockSize: int64(bs)})
			for b := at; b < end; b++ {
				want[b] = true
			}
		}
		at = end
	}
	c.Describe("block size %d, %d bytes, concurrency %d, split at %d, verified %v, %d spans, url %s", bs, size, conc, max, verified, len(spans), url)

	type answer struct {
		start int
		data  []byte
	}
	var answers []answer
	var errs []error
	var src *blocksources.BlockSourceBase
	closedRes, closedErr := false, false
	oc := c.Sim(simrt.Config{}, func() {
		var resolver blocksources.BlockSourceOffsetResolver = blocksources.MakeFileSizedBlockResolver(uint64(bs), w.off+int64(size))
		if max > 0 {
			resolver = &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: w.off + int64(size), MaxDesiredRequestSize: uint64(max)}
		}
		var v blocksources.BlockVerifier
		if verified {
			sums := fixedSums{base: base, sums: make([][]byte, n)}
			for i := range sums.sums {
				sums.sums[i] = md5sum(ref[i*bs : min((i+1)*bs, size)])
			}
			v = &filechecksum.HashVerifier{Hash: md5.New(), BlockSize: uint(bs), BlockChecksumGetter: sums}
		}
		src = blocksources.NewHttpBlockSource(url, conc, resolver, v)
		simrt.Spawn("client", func() {
			for _, s := range spans {
				pause(c, 1)
				s.StartBlock += uint(base)
				s.EndBlock += uint(base)
				src.RequestBlocks(s)
			}
		})
		simrt.Spawn("consumer", func() {
			res, ec := src.GetResultChannel(), src.EncounteredError()
			for res != nil || ec != nil {
				r, e := simrt.RecvCase(res), simrt.RecvCase(ec)
				if simrt.Select("consumer", false, r, e) == 0 {
					if !r.OK {
						res, closedRes = nil, true
						continue
					}
					simrt.Logf("received block %d, %d bytes", r.V.StartBlock, len(r.V.Data))
					answers = append(answers, answer{int(r.V.StartBlock) - base, r.V.Data})
				} else {
					if !e.OK {
						ec, closedErr = nil, true
						continue
					}
					simrt.Logf("received error %v", e.V)
					errs = append(errs, e.V)
				}
			}
		})
		simrt.WaitIdle()
		if n := w.openBodies(); n > 0 {
			c.Fail("C17", "body-open", "%d of %d response bodies are not closed: %s", n, len(w.xs), w.list())
		}
	})
	_, _ = closedRes, closedErr
	if !c.Report(oc, "C18", "http block source") {
		return
	}
	if malformed {
		asked := false
		for _, x := range want {
			asked = asked || x
		}
		if len(answers) > 0 || asked != (len(errs) > 0) {
			c.Fail("C18", "malformed-url", "asked %v of the address %q: %d answers, %d errors", asked, url, len(answers), len(errs))
		}
		c.Hit("malformed url")
		return
	}
	// the requests
	seen := make([]int, n)
	finals := map[int64]*exchange{}
	bad, bad404 := 0, 0
	for _, x := range w.xs {
		if x.from < 0 || x.from%int64(bs) != 0 || x.from >= int64(size) || x.to > int64(size) || x.to%int64(bs) != 0 && x.to != int64(size) {
			c.Fail("C18", "range", "range %q was requested of a file of %d bytes in blocks of %d", x.rng, size, bs)
			return
		}
		if strings.Contains(strings.ToLower(x.accept), "gzip") {
			c.Fail("C18", "accepts-gzip", "request %d accepts gzip encoded content (%q)", x.id, x.accept)
			return
		}
		if x.redirected {
			continue // the client asks again
		}
		for b := x.from / int64(bs); b*int64(bs) < x.to; b++ {
			seen[b]++
			if seen[b] > 1 || !want[b] {
				c.Fail("C18", "range", "block %d was requested %d times, wanted %v: %s", b, seen[b], want[b], w.list())
				return
			}
		}
		finals[x.from] = x
		ok := x.good()
		if ok && verified {
			ok = bytes.Equal(x.sent, ref[x.from:x.to])
		}
		if !ok {
			bad++
			if x.status == 404 && !x.err {
				bad404++
			}
		}
	}
	loops := 0
	for _, x := range w.xs {
		if x.redirected && (finals[x.from] == nil || finals[x.from].t0 < x.t0) {
			loops++ // redirected too often
		}
	}
	got := make([]int, n)
	for _, a := range answers {
		x := finals[int64(a.start*bs)]
		switch {
		case x == nil || !x.good():
			c.Fail("C18", "data-for-bad-response", "block %d was answered with %d bytes although its response was not a complete 206: %v", a.start, len(a.data), x)
			return
		case verified && !bytes.Equal(x.sent, ref[x.from:x.to]):
			c.Fail("C18", "unverified", "block %d was answered although its data does not verify", a.start)
			return
		case !bytes.Equal(a.data, x.sent):
			c.Fail("C18", "other-data", "block %d was answered with %d bytes that are not those the server sent: %s", a.start, len(a.data), describeDiff(a.data, x.sent))
			return
		}
		for b := a.start; b < a.start+blocksOf(len(a.data), bs); b++ {
			got[b]++
			if got[b] > 1 {
				c.Fail("C18", "repeated", "block %d was answered twice", b)
				return
			}
		}
	}
	if bad+loops > 0 {
		c.Hit("failing response")
		if len(errs) == 0 {
			c.Fail("C18", "not-reported", "%d bad responses and no error: %s", bad+loops, w.list())
			return
		}
		var nf blocksources.URLNotFoundError
		if bad404 == bad && loops == 0 {
			c.Hit("404")
			if !errors.As(errs[0], &nf) {
				c.Fail("C18", "404", "the file was not found but the error is %q", errs[0])
			}
		} else if bad404 == 0 && errors.As(errs[0], &nf) {
			c.Fail("C18", "404", "the error is %q although the server never said so: %s", errs[0], w.list())
		}
		return
	}
	if len(errs) > 0 {
		c.Fail("C18", "invented-error", "error %q although every response was right: %s", errs[0], w.list())
		return
	}
	for b := range want {
		if want[b] != (got[b] == 1) {
			c.Fail("C18", "not-answered", "block %d was requested %v and answered %d times: %s", b, want[b], got[b], w.list())
			return
		}
	}
}
