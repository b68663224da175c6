// Package verifcli runs the command line tool, unchanged, inside a simulated
// machine: the network it dials, the clock it reads and the devices behind
// its standard output and error stream are scripted by a scenario.
package verifcli

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Text is a string that survives JSON whatever bytes it holds.
type Text string

func (t Text) MarshalJSON() ([]byte, error) {
	s := string(t)
	if !utf8.ValidString(s) || strings.HasPrefix(s, "\x00hex:") {
		s = "\x00hex:" + hex.EncodeToString([]byte(s))
	}
	return json.Marshal(s)
}

func (t *Text) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	if h, ok := strings.CutPrefix(s, "\x00hex:"); ok {
		d, err := hex.DecodeString(h)
		if err != nil {
			return err
		}
		s = string(d)
	}
	*t = Text(s)
	return nil
}

// Seg is one piece of a reply on the wire: N bytes, Ms simulated milliseconds
// after the one before. The rest of the reply follows the last piece at once.
type Seg struct {
	N  int `json:"n"`
	Ms int `json:"ms,omitempty"`
}

// Route is what a simulated origin answers for one address.
type Route struct {
	Status  int         `json:"status"`
	Headers [][2]string `json:"headers,omitempty"`
	Body    Text        `json:"body"`
	Pad     int         `json:"pad,omitempty"`    // bytes of comment put in front of the body's end
	PadTop  bool        `json:"padTop,omitempty"` // or at its start
	Frame   string      `json:"frame"`            // len, chunked, close
	Gzip    bool        `json:"gzip,omitempty"`
	Chunks  []int       `json:"chunks,omitempty"`
	Interim []int       `json:"interim,omitempty"`
	Raw     Text        `json:"raw,omitempty"` // a malformed reply, verbatim
	Segs    []Seg       `json:"segs,omitempty"`
	Cut     int         `json:"cut,omitempty"`    // >0: only the first Cut-1 bytes are sent
	CutBy   string      `json:"cutBy,omitempty"`  // fin, rst
	GzFlip  int         `json:"gzFlip,omitempty"` // >0: bit flipped in the compressed body
	GzCut   int         `json:"gzCut,omitempty"`  // >0: compressed body shortened by this many bytes
	Chunk0  string      `json:"badChunk,omitempty"`
	Next    string      `json:"next,omitempty"`  // redirect target (a route)
	After   string      `json:"after,omitempty"` // keep, close, idleclose, killnext
}

// IOFault makes a device fail once Off bytes were accepted.
type IOFault struct {
	Off   int    `json:"off"`
	Kind  string `json:"kind"` // enospc, eio, epipe, short, slow
	Once  bool   `json:"once,omitempty"`
	Delay int    `json:"delay,omitempty"` // ms
}

// DialFault makes the N-th connection attempt fail or slow.
type DialFault struct {
	N  int    `json:"n"`
	By string `json:"by"` // refused, nohost, timeout, unreach, slow, wrfail
}

// Scn is one simulated run of the tool.
type Scn struct {
	Prop   string           `json:"property"`
	Seed   uint64           `json:"seed"`
	Run    uint64           `json:"run"`
	Kind   string           `json:"kind"`
	Args   []string         `json:"args"`
	URL    string           `json:"url"`
	HTML   bool             `json:"html"`
	First  string           `json:"first"`
	Routes map[string]Route `json:"routes"`
	Dials  []DialFault      `json:"dials,omitempty"`
	Out    []IOFault        `json:"out,omitempty"`
	Err    []IOFault        `json:"err,omitempty"`
}

func pad(n int) string {
	if n <= 0 {
		return ""
	}
	return "<!--" + strings.Repeat("padding. ", n/9+1)[:n] + "-->"
}

// payload is the page itself.
func (r *Route) payload() string {
	b := string(r.Body)
	if r.Pad <= 0 {
		return b
	}
	if r.PadTop {
		if i := strings.Index(b, "<body"); i >= 0 {
			if j := strings.IndexByte(b[i:], '>'); j >= 0 {
				return b[:i+j+1] + pad(r.Pad) + b[i+j+1:]
			}
		}
		return pad(r.Pad) + b
	}
	if i := strings.LastIndex(b, "</body>"); i >= 0 {
		return b[:i] + pad(r.Pad) + b[i:]
	}
	return b + pad(r.Pad)
}

// wire is the reply as bytes, and where its body starts.
func (r *Route) wire(gz bool) ([]byte, int) {
	if r.Raw != "" {
		return []byte(r.Raw), len(r.Raw)
	}
	body := []byte(r.payload())
	gz = gz && r.Gzip
	if gz {
		var b bytes.Buffer
		z, _ := gzip.NewWriterLevel(&b, 5)
		z.Write(body)
		z.Close()
		body = b.Bytes()
		if r.GzFlip > 0 {
			i := (r.GzFlip - 1) % (len(body) * 8)
			body[i/8] ^= 1 << (i % 8)
		}
		if r.GzCut > 0 {
			body = body[:max(0, len(body)-r.GzCut)]
		}
	}
	var h bytes.Buffer
	for _, c := range r.Interim {
		fmt.Fprintf(&h, "HTTP/1.1 %d Interim\r\nX-Interim: 1\r\n\r\n", c)
	}
	fmt.Fprintf(&h, "HTTP/1.1 %d Status\r\n", r.Status)
	for _, kv := range r.Headers {
		h.WriteString(kv[0] + ": " + kv[1] + "\r\n")
	}
	if gz {
		h.WriteString("Content-Encoding: gzip\r\n")
	}
	if r.After == "close" || r.Frame == "close" {
		h.WriteString("Connection: close\r\n")
	}
	switch r.Frame {
	case "chunked":
		h.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		at := h.Len()
		left := body
		for i := 0; len(left) > 0; i++ {
			n := len(left)
			if len(r.Chunks) > 0 {
				n = min(n, max(1, r.Chunks[i%len(r.Chunks)]))
			}
			if r.Chunk0 != "" && (i == 1 || n == len(left)) {
				h.WriteString(r.Chunk0 + "\r\n")
			} else {
				h.WriteString(strconv.FormatInt(int64(n), 16) + "\r\n")
			}
			h.Write(left[:n])
			h.WriteString("\r\n")
			left = left[n:]
		}
		h.WriteString("0\r\n\r\n")
		return h.Bytes(), at
	case "close":
		h.WriteString("\r\n")
	default:
		fmt.Fprintf(&h, "Content-Length: %d\r\n\r\n", len(body))
	}
	at := h.Len()
	h.Write(body)
	return h.Bytes(), at
}

// gunzip decodes a compressed page; nothing at all is an empty page, as it is
// for net/http.
func gunzip(b []byte) (string, bool) {
	if len(b) == 0 {
		return "", true
	}
	z, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return "", false
	}
	t, err := io.ReadAll(z)
	if err != nil {
		return "", false
	}
	return string(t), true
}

// delivered says what a correct client receives from the scenario: the page
// and whether it arrived completely.
func (s *Scn) delivered() (string, bool) {
	for _, d := range s.Dials {
		if d.By != "slow" {
			return "", false
		}
	}
	key := s.First
	for hop := 0; hop < 10; hop++ {
		r, ok := s.Routes[key]
		if !ok || r.Raw != "" || r.Chunk0 != "" {
			return "", false
		}
		if r.Next != "" {
			key = r.Next
			continue
		}
		damaged := r.Gzip && (r.GzFlip > 0 || r.GzCut > 0)
		if r.Cut == 0 && !damaged {
			return r.payload(), true
		}
		if r.Cut == 0 {
			// a flipped bit may be one that decoding ignores
			b := r
			b.Frame = "close"
			w, at := b.wire(true)
			return gunzip(w[at:])
		}
		w, at := r.wire(true)
		if r.Frame == "close" && r.CutBy == "fin" && r.Cut-1 >= at {
			if r.Gzip {
				return gunzip(w[at : r.Cut-1])
			}
			return string(w[at : r.Cut-1]), true
		}
		return "", false
	}
	return "", false
}
