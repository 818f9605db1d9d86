package simos

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Transport replaces http.Transport: every connection goes to the simulated network, which the
// harness installs as http.DefaultTransport.
type Transport http.Transport

// RoundTrip hands the request to the simulated network.
func (t *Transport) RoundTrip(r *http.Request) (*http.Response, error) {
	return http.DefaultTransport.RoundTrip(r)
}

// CloseIdleConnections does nothing.
func (t *Transport) CloseIdleConnections() {}

// Clone copies the settings.
func (t *Transport) Clone() *Transport { return &Transport{DisableCompression: t.DisableCompression} }

// Client replaces http.Client, with a time limit in simulated time.
type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

// DefaultClient replaces http.DefaultClient.
var DefaultClient = &Client{}

// Do sends a request.
func (c *Client) Do(r *http.Request) (*http.Response, error) {
	real := &http.Client{Transport: c.Transport, CheckRedirect: c.CheckRedirect, Jar: c.Jar}
	if c.Timeout <= 0 {
		return real.Do(r)
	}
	ctx, cancel := simrt.WithTimeout(r.Context(), c.Timeout)
	resp, err := real.Do(r.WithContext(ctx))
	if err != nil {
		cancel()
		return resp, err
	}
	resp.Body = &timedBody{resp.Body, cancel}
	return resp, nil
}

// timedBody ends the time limit with the body.
type timedBody struct {
	io.ReadCloser
	cancel func()
}

func (b *timedBody) Close() error {
	b.cancel()
	return b.ReadCloser.Close()
}

// Get requests a URL.
func (c *Client) Get(u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

// Head requests the headers of a URL.
func (c *Client) Head(u string) (*http.Response, error) {
	r, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}

// Post sends data.
func (c *Client) Post(u, contentType string, body io.Reader) (*http.Response, error) {
	r, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", contentType)
	return c.Do(r)
}

// PostForm sends a form.
func (c *Client) PostForm(u string, data url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

// CloseIdleConnections does nothing.
func (c *Client) CloseIdleConnections() {}

// HTTPGet replaces http.Get.
func HTTPGet(u string) (*http.Response, error) { return DefaultClient.Get(u) }

// HTTPHead replaces http.Head.
func HTTPHead(u string) (*http.Response, error) { return DefaultClient.Head(u) }
