//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"testing/iotest"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
)

// readerKinds make differently behaving streams delivering the same bytes.
var readerKinds = []struct {
	name string
	make func(data []byte) io.Reader
}{
	{"bytes.Reader", func(d []byte) io.Reader { return bytes.NewReader(d) }},
	{"bytes.Buffer", func(d []byte) io.Reader { return bytes.NewBuffer(append([]byte{}, d...)) }},
	{"bufio", func(d []byte) io.Reader { return bufio.NewReaderSize(bytes.NewReader(d), 16) }},
	{"one byte", func(d []byte) io.Reader { return iotest.OneByteReader(bytes.NewReader(d)) }},
	{"half", func(d []byte) io.Reader { return iotest.HalfReader(bytes.NewReader(d)) }},
	{"error with data", func(d []byte) io.Reader { return iotest.DataErrReader(bytes.NewReader(d)) }},
	{"only reader", func(d []byte) io.Reader { return struct{ io.Reader }{bytes.NewReader(d)} }},
	{"three bytes", func(d []byte) io.Reader {
		pieces := make([]int, len(d)/3+1)
		for i := range pieces {
			pieces[i] = 3
		}

		return &mc.Reader{Data: d, Pieces: pieces}
	}},
}

// roundTrip writes the set, compares the bytes with the specified encoding and reads it back with trailing bytes around.
func roundTrip(k kind, values []int, readers int) error {
	h := k.make(values)
	want := k.encode(values)

	var buf bytes.Buffer

	n, err := h.WriteTo(&buf)
	if err != nil || int(n) != len(want) || !bytes.Equal(buf.Bytes(), want) {
		return mc.Failf("%s: writing %s gave %d, %v and %d bytes %.60x, expected %d bytes %.60x", k.Name, brief(values), n, err, buf.Len(), buf.Bytes(), len(want), want)
	}

	if !same(h.Values(), values) {
		return mc.Failf("%s: writing %s changed it to %s", k.Name, brief(values), brief(h.Values()))
	}

	tail := []byte{0xa5, 0x5a, 0x01}

	for _, rk := range readerKinds[:readers] {
		r := rk.make(append(append([]byte{}, want...), tail...))
		back := k.New()

		n, err = back.ReadFrom(r)
		if err != nil || int(n) != len(want) {
			return mc.Failf("%s: reading %s from %s: %d, %v, expected %d bytes", k.Name, brief(values), rk.name, n, err, len(want))
		}

		if got := back.Values(); !same(got, values) {
			return mc.Failf("%s: reading %s from %s gave %s", k.Name, brief(values), rk.name, brief(got))
		}

		rest, err := io.ReadAll(r)
		if err != nil || !bytes.Equal(rest, tail) {
			return mc.Failf("%s: after reading %s from %s the stream holds %x (%v), expected %x", k.Name, brief(values), rk.name, rest, err, tail)
		}
	}

	return nil
}

func checkRoundTrip(c *mc.C) {
	c.Rule("Every length, every element value at several positions, every small list over boundary ids, every sequence of sets over one stream and " +
		"receiver, each written, compared with an independently written encoder and read back through several stream kinds. Non-trivial: at least one element.")

	type sized struct {
		Len int `json:"len"`
	}

	for ki, k := range kinds {
		sweep := k.Max
		if k.Width == 2 {
			sweep = c.Pick(1500, k.Max)
		}

		mc.Family(c, k.Name+".lengths", fmt.Sprintf("every length 0..%d (and the largest ones) in fixed orders", sweep), func(yield func(sized) bool) {
			for n := 0; n <= sweep; n++ {
				if !yield(sized{n}) {
					return
				}
			}

			if sweep < k.Max {
				for _, n := range []int{
					2047, 2048, 2049, 4095, 4096, 4097, 6144, 8191, 8192, 8193, 10000, 12288, 16383, 16384, 16385, 20480, 24576,
					32767, 32768, 32769, 40960, 49152, 57344, 61440, 0xff00, 65533, 65534, 65535,
				} {
					if !yield(sized{n}) {
						return
					}
				}
			}
		}, func(x *mc.X, s sized) error {
			i := 0

			for _, name := range []string{"stride", "from the top", "descending", "bit"} {
				readers := len(readerKinds)
				if s.Len > 2000 {
					readers = 1
				}

				v := patterns(s.Len, k.Max)[name]
				if err := roundTrip(k, v, readers); err != nil {
					return mc.Failf("order %q: %v", name, err)
				}

				x.Evals(1, boolInt(s.Len > 0))

				i++
				if s.Len > 2000 && i == 1 {
					break
				}
			}

			return nil
		})

		mc.Family(c, k.Name+".values", "every element value alone, first, middle and last", func(yield func(sized) bool) {
			for v := 0; v <= k.Max; v++ {
				if !yield(sized{v}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			v := s.Len
			for _, values := range [][]int{{v}, {v, 1, 2}, {7, v, 0}, {0, k.Max, v}, {v, v}} {
				if err := roundTrip(k, values, 1); err != nil {
					return err
				}
			}

			x.Evals(5, 5)

			return nil
		})

		words := c.Pick(4, 5)

		mc.Family(c, k.Name+".words", fmt.Sprintf("all lists of up to %d elements over %d boundary ids", words, len(k.Values)), func(yield func(list) bool) {
			for n := 0; n <= words; n++ {
				stop := false
				mc.Each(len(k.Values), n, func(w []int) bool {
					v := make([]int, n)
					for i := range w {
						v[i] = k.Values[w[i]]
					}

					stop = !yield(list{ki, v})

					return !stop
				})

				if stop {
					return
				}
			}
		}, func(x *mc.X, s list) error {
			x.Evals(1, boolInt(len(s.Values) > 0))
			return roundTrip(k, s.Values, len(readerKinds))
		})

		// sequences of sets through one stream, receivers re-used or fresh, sets read before must stay
		big := make([]int, 200)
		for i := range big {
			big[i] = (i*37 + 5) % (k.Max + 1)
		}

		items := [][]int{{}, {5}, {k.Max, 0}, {3, 2, 1, 0, k.Max}, big, {0, 0, 0}}
		depth := c.Pick(4, 6)

		type seq struct {
			Items []int `json:"items"`
			Reuse bool  `json:"reuse"`
		}

		mc.Family(c, k.Name+".streams", fmt.Sprintf("all sequences of up to %d out of %d sets in one stream, read into fresh and into one re-used receiver", depth, len(items)), func(yield func(seq) bool) {
			for n := 1; n <= depth; n++ {
				stop := false
				mc.Each(len(items), n, func(w []int) bool {
					for _, reuse := range []bool{false, true} {
						if stop = !yield(seq{append([]int{}, w...), reuse}); stop {
							return false
						}
					}

					return true
				})

				if stop {
					return
				}
			}
		}, func(x *mc.X, s seq) error {
			var (
				buf  bytes.Buffer
				want []byte
			)

			for _, it := range s.Items {
				if n, err := k.make(items[it]).WriteTo(&buf); err != nil || int(n) != len(k.encode(items[it])) {
					return mc.Failf("%s: writing %s: %d %v", k.Name, brief(items[it]), n, err)
				}

				want = append(want, k.encode(items[it])...)
			}

			if !bytes.Equal(buf.Bytes(), want) {
				return mc.Failf("%s: %d sets in one stream are written wrong", k.Name, len(s.Items))
			}

			r := bytes.NewReader(want)
			target := k.New()

			var kept []handle

			for i, it := range s.Items {
				if !s.Reuse {
					target = k.New()
				}

				n, err := target.ReadFrom(r)
				if err != nil || int(n) != len(k.encode(items[it])) || !same(target.Values(), items[it]) {
					return mc.Failf("%s: set %d of %v: read %d %v: %s, expected %s", k.Name, i, s.Items, n, err, brief(target.Values()), brief(items[it]))
				}

				kept = append(kept, snapshot(k, target))
			}

			for i, it := range s.Items {
				if !same(kept[i].Values(), items[it]) {
					return mc.Failf("%s: set %d of %v changed to %s by later reads", k.Name, i, s.Items, brief(kept[i].Values()))
				}
			}

			if r.Len() != 0 {
				return mc.Failf("%s: %d bytes left", k.Name, r.Len())
			}

			x.Evals(1, boolInt(len(s.Items) > 1))

			return nil
		})
	}
}

// snapshot keeps the slice a receiver holds now, sharing its memory as a user assigning it would do.
func snapshot(_ kind, h handle) handle {
	switch v := h.(type) {
	case *h8:
		return &h8{v.s}
	case *h16:
		return &h16{v.s}
	}

	return nil
}

func checkStreams(c *mc.C) {
	c.Rule("Fault points: a stream ending or failing after every byte of the encoding (every error kind, every way to cut small encodings into pieces, " +
		"the error after or together with the last bytes) and a destination failing after every byte (three ways to fail), for sets of many lengths; " +
		"every evaluation is a distinct pair of set and fault.")

	ends := map[string]error{"eof": io.EOF, "unexpected": io.ErrUnexpectedEOF, "injected": mc.ErrInjected}

	type cut struct {
		Values []int  `json:"values"`
		End    string `json:"end"`
		Joined bool   `json:"joined"`
	}

	for _, k := range kinds {
		contents := func(n int) [][]int {
			p := patterns(n, k.Max)
			zero := make([]int, n)

			return [][]int{p["from the top"], zero}
		}

		lengths := []int{0, 1, 2, 3, 4, 5, 8, 16, 31, 32, 64, 127, 128, 254, 255}
		if k.Width == 2 {
			lengths = append(lengths, 256, 257, 300, 511, 512, 513, c.Pick(1024, 4097))
		}

		try := func(values []int, r *mc.Reader, complete bool, prev []int) error {
			h := k.make(prev)
			n, err := h.ReadFrom(r)

			if complete {
				if err != nil || !same(h.Values(), values) || int(n) != len(k.encode(values)) {
					return mc.Failf("%s: reading %s in pieces: %d %v %s", k.Name, brief(values), n, err, brief(h.Values()))
				}

				return nil
			}

			if err == nil {
				return mc.Failf("%s: reading %s from a stream ending after %d of %d bytes reports success with %s", k.Name, brief(values), len(r.Data), len(k.encode(values)), brief(h.Values()))
			}

			return nil
		}

		mc.Family(c, k.Name+".cuts", "every cut point of the encodings of all lengths listed, every kind of end, one read failing at every point, whole delivery and byte by byte, fresh and filled receivers", func(yield func(cut) bool) {
			for _, n := range lengths {
				for _, values := range contents(n) {
					for end := range ends {
						for _, joined := range []bool{false, true} {
							if !yield(cut{values, end, joined}) {
								return
							}
						}
					}
				}
			}
		}, func(x *mc.X, s cut) error {
			data := k.encode(s.Values)

			for at := 0; at <= len(data); at++ {
				complete := at == len(data)
				if complete && s.Joined && s.End != "eof" {
					continue // an error delivered together with the last needed byte may be reported or not
				}

				for _, single := range []bool{false, true} {
					var pieces []int
					if single {
						for i := 0; i < at; i++ {
							pieces = append(pieces, 1)
						}
					}

					if !complete && !s.Joined { // one read fails, later ones would go on
						if err := try(s.Values, &mc.Reader{Data: data, End: ends[s.End], Break: at + 1, Pieces: append([]int{}, pieces...)}, false, nil); err != nil {
							return mc.Failf("one read failing at %d: %v", at, err)
						}
					}

					r := &mc.Reader{Data: data[:at], End: ends[s.End], Joined: s.Joined, Pieces: pieces}
					if err := try(s.Values, r, complete, nil); err != nil {
						return err
					}

					r = &mc.Reader{Data: data[:at], End: ends[s.End], Joined: s.Joined, Pieces: append([]int{}, pieces...)}
					if err := try(s.Values, r, complete, []int{1, 2, 3, 4, 5, 6, 7}); err != nil {
						return err
					}

					x.Evals(2, 2)
				}
			}

			return nil
		})

		type pieces struct {
			Values []int `json:"values"`
			At     int   `json:"at"`
		}

		maxLen := c.Pick(10, 15) / k.Width

		mc.Family(c, k.Name+".pieces", fmt.Sprintf("sets of up to %d elements, every cut point, every way to deliver the bytes in pieces, an empty read at every place", maxLen), func(yield func(pieces) bool) {
			for n := 0; n <= maxLen; n++ {
				for _, values := range contents(n) {
					for at := 0; at <= (n+1)*k.Width; at++ {
						if !yield(pieces{values, at}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, s pieces) (err error) {
			data := k.encode(s.Values)
			complete := s.At == len(data)

			mc.Compositions(s.At, func(p []int) bool {
				for gap := -1; gap < len(p); gap++ {
					q := append([]int{}, p...)
					if gap >= 0 {
						q = append(append(append([]int{}, p[:gap]...), 0), p[gap:]...)
					}

					for _, joined := range []bool{false, true} {
						r := &mc.Reader{Data: data[:s.At], Pieces: append([]int{}, q...), Joined: joined}
						if err = try(s.Values, r, complete, nil); err != nil {
							err = mc.Failf("pieces %v: %v", q, err)
							return false
						}

						x.Evals(1, 1)
					}
				}

				return !x.Expired()
			})

			return err
		})

		type wcut struct {
			Values []int  `json:"values"`
			Mode   string `json:"mode"`
		}

		mc.Family(c, k.Name+".writers", "destination failing after every byte, three ways to fail, for good or once, all lengths listed", func(yield func(wcut) bool) {
			for _, n := range lengths {
				for _, values := range contents(n) {
					for _, mode := range []string{"error", "refuse", "short", "once", "once-short"} {
						if !yield(wcut{values, mode}) {
							return
						}
					}
				}
			}
		}, func(x *mc.X, s wcut) error {
			data := k.encode(s.Values)

			for at := 0; at <= len(data); at++ {
				w := &mc.Writer{Limit: at, Mode: s.Mode}
				h := k.make(s.Values)
				n, err := h.WriteTo(w)

				if at < len(data) && err == nil {
					return mc.Failf("%s: writing %s to a destination failing (%s) after %d of %d bytes reports success", k.Name, brief(s.Values), s.Mode, at, len(data))
				}

				if at == len(data) && (err != nil || int(n) != at || !bytes.Equal(w.Data, data)) {
					return mc.Failf("%s: writing %s to a destination of exactly its size: %d %v", k.Name, brief(s.Values), n, err)
				}

				if err != nil && s.Mode != "short" && !bytes.HasPrefix(data, w.Data) {
					return mc.Failf("%s: writing %s to a failing destination left %x", k.Name, brief(s.Values), w.Data)
				}

				if !same(h.Values(), s.Values) {
					return mc.Failf("%s: failed writing changed the set", k.Name)
				}

				x.Evals(1, 1)
			}

			return nil
		})

		type sized struct {
			Len int `json:"len"`
		}

		mc.Family(c, k.Name+".oversize", "lengths over the length prefix are refused", func(yield func(sized) bool) {
			for _, d := range []int{1, 2, 3, 4, 5, 44, 45, 127, 128, 129, 255, 256, 257, 258, 511, 512, 1000, k.Max, k.Max + 1, k.Max + 2, 2*k.Max + 1, 2*k.Max + 2, 2*k.Max + 3} {
				if !yield(sized{k.Max + d}) {
					return
				}
			}
		}, func(x *mc.X, s sized) error {
			var buf bytes.Buffer

			_, err := k.make(patterns(s.Len, k.Max)["stride"]).WriteTo(&buf)
			if err == nil {
				return mc.Failf("%s: a set of %d elements was written as %.8x... without an error", k.Name, s.Len, buf.Bytes())
			}

			x.Evals(1, 1)

			return nil
		})
	}

}
