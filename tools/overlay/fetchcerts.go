package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"os"
	"sync"
	"time"
)

// The check's scenario stands in for the network.

type verifAnswer struct {
	Status int    `json:"status"`
	Body   []byte `json:"body"`
	Fail   string `json:"fail"` // "net": no answer; "cut": the body ends early
}

type verifNet struct {
	Answers map[string]verifAnswer `json:"answers"`
	Order   [][]string             `json:"order"` // each page's downloads in the order they are answered, as far as they are asked for
	Limit   int                    `json:"limit"`

	mu      sync.Mutex
	left    map[string]int
	waiting map[string][]chan struct{}
	busy    bool
}

func init() {
	b, err := os.ReadFile(os.Getenv("VERIF_SCENARIO"))
	if err != nil {
		panic("no scenario: " + err.Error())
	}
	n := &verifNet{left: map[string]int{}, waiting: map[string][]chan struct{}{}}
	if err := json.Unmarshal(b, n); err != nil {
		panic(err)
	}
	for _, o := range n.Order {
		for _, u := range o {
			n.left[u]++
		}
	}
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{Transport: n}
}

// next answers the first of the waiting requests, once so many wait as can;
// with force, however many wait.
func (n *verifNet) next(force bool) {
	if n.busy && !force {
		return
	}
	for _, o := range n.Order {
		waiting, left := 0, 0
		seen := map[string]bool{}
		for _, u := range o {
			if !seen[u] {
				waiting += len(n.waiting[u])
				left += n.left[u]
			}
			seen[u] = true
		}
		if waiting == 0 || waiting < min(n.Limit, left) && !force {
			continue
		}
		for _, u := range o {
			if w := n.waiting[u]; len(w) > 0 {
				n.waiting[u] = w[1:]
				n.busy = true
				close(w[0])
				return
			}
		}
	}
}

func (n *verifNet) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	n.mu.Lock()
	ordered := n.left[u] > 0
	var turn chan struct{}
	if ordered {
		turn = make(chan struct{})
		n.waiting[u] = append(n.waiting[u], turn)
		n.next(false)
	}
	n.mu.Unlock()
	for ordered {
		select {
		case <-turn:
			ordered = false
		case <-time.After(300 * time.Millisecond):
			n.mu.Lock()
			n.next(true)
			n.mu.Unlock()
		}
	}
	ordered = turn != nil
	done := func() {
		if !ordered {
			return
		}
		n.mu.Lock()
		n.left[u]--
		n.busy = false
		n.next(false)
		n.mu.Unlock()
	}
	a, ok := n.Answers[u]
	if !ok {
		a = verifAnswer{Status: 404, Body: []byte("<html>not found</html>")}
	}
	if a.Fail == "net" {
		done()
		return nil, errors.New("connection refused")
	}
	return &http.Response{Status: http.StatusText(a.Status), StatusCode: a.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, ContentLength: -1, Request: r, Body: &verifBody{r: bytes.NewReader(a.Body), cut: a.Fail == "cut", done: done}}, nil
}

type verifBody struct {
	r    io.Reader
	cut  bool
	once sync.Once
	done func()
}

func (b *verifBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.cut {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *verifBody) Close() error {
	b.once.Do(b.done)
	return nil
}
