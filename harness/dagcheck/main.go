//go:build go1.22

// Package main checks tags and paths (pkg/dag, pkg/common): D01-D05.
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

func main() {
	mc.Main(map[string]func(c *mc.C){
		"D01": checkNames, "D02": checkTagCodec, "D03": checkTagList, "D04": checkTagStreams, "D05": checkPaths,
	}, map[string]string{
		"D01": "exploration", "D02": "exploration", "D03": "model_checking", "D04": "fault_enumeration", "D05": "exploration",
	})
}

const empty = "----"

// encodeName is the specified encoding of a name; ok is false if it has to be refused.
func encodeName(name string) (data []byte, ok bool) {
	if name == "" || name == empty {
		return []byte("    "), true
	}

	return []byte(name), len(name) == 4
}

// decodeName is the specified decoding.
func decodeName(data []byte) string {
	if string(data) == "    " {
		return empty
	}

	return string(data)
}

func oneName(b [4]byte) error {
	name := string(b[:])
	want, _ := encodeName(name)

	data, err := dag.TagName(name).MarshalBinary()
	if err != nil || !bytes.Equal(data, want) {
		return mc.Failf("name %q encodes to %q, %v, expected %q", name, data, err, want)
	}

	var back dag.TagName

	if err = back.UnmarshalBinary(b[:]); err != nil || string(back) != decodeName(b[:]) {
		return mc.Failf("bytes %q decode to %q, %v, expected %q", b, back, err, decodeName(b[:]))
	}

	return nil
}

func checkNames(c *mc.C) {
	c.Rule("4-byte names: in the quick tier every value of every pair of positions with the other two out of 16 special bytes, and all names over those 16 bytes; " +
		"in the thorough tier all 2^32 names. Wrong lengths: every length of the sweep. All evaluations are distinct.")

	special := []byte{0x20, 0x2d, 0, 1, 0x1f, 0x21, 0x2c, 0x2e, 'A', 'N', 'a', 0x7f, 0x80, 0xd0, 0xfe, 0xff}

	type pair struct {
		I, J   int
		O1, O2 byte
	}

	mc.Family(c, "position-pairs", "all 2^16 values of every pair of positions, the other two positions out of 16 special bytes", func(yield func(pair) bool) {
		for i := 0; i < 4; i++ {
			for j := i + 1; j < 4; j++ {
				for _, o1 := range special {
					for _, o2 := range special {
						if !yield(pair{i, j, o1, o2}) {
							return
						}
					}
				}
			}
		}
	}, func(x *mc.X, p pair) error {
		for v := 0; v < 65536; v++ {
			var b [4]byte

			other := []byte{p.O1, p.O2}

			for k := range b {
				switch k {
				case p.I:
					b[k] = byte(v >> 8)
				case p.J:
					b[k] = byte(v)
				default:
					b[k] = other[0]
					other = other[1:]
				}
			}

			if err := oneName(b); err != nil {
				return err
			}
		}

		x.Evals(65536, 65536)

		return nil
	})

	if !c.Quick() {
		type row struct{ Hi int }

		mc.Family(c, "all", "all 2^32 names", func(yield func(row) bool) {
			for hi := 0; hi < 65536; hi += 4 {
				if !yield(row{hi}) {
					return
				}
			}
		}, func(x *mc.X, r row) error {
			for hi := r.Hi; hi < r.Hi+4; hi++ {
				for lo := 0; lo < 65536; lo++ {
					if err := oneName([4]byte{byte(hi >> 8), byte(hi), byte(lo >> 8), byte(lo)}); err != nil {
						return err
					}
				}
			}

			x.Evals(4*65536, 4*65536)

			return nil
		})
	}

	type text struct {
		Data []byte `json:"data"`
	}

	maxLen := c.Pick(2000, 70000)

	mc.Family(c, "lengths", fmt.Sprintf("names and byte strings of every length 0..%d", maxLen), func(yield func(text) bool) {
		for _, unit := range []string{"-", " ", "A", "\x00", "ё", "----", "    ", "NOUN"} {
			for n := 0; n <= maxLen; n++ {
				if n > 64 && len(unit) > 1 && n%61 != 0 {
					continue
				}

				if n > 5000 && n%997 != 0 && n&(n-1) != 0 && (n+1)&n != 0 {
					continue
				}

				if !yield(text{[]byte(strings.Repeat(unit, n/len(unit)+1)[:n])}) {
					return
				}
			}
		}
	}, func(x *mc.X, s text) error {
		name := string(s.Data)
		want, ok := encodeName(name)
		data, err := dag.TagName(name).MarshalBinary()

		if (err == nil) != ok || ok && !bytes.Equal(data, want) {
			return mc.Failf("name %.40q of %d bytes encodes to %.40q, %v, expected %.40q, %v", name, len(name), data, err, want, ok)
		}

		for _, before := range []dag.TagName{"", "NOUN", empty} {
			target := before
			err = target.UnmarshalBinary(s.Data)

			switch {
			case len(s.Data) == 4 && (err != nil || string(target) != decodeName(s.Data)):
				return mc.Failf("bytes %q decode to %q, %v", s.Data, target, err)
			case len(s.Data) != 4 && err == nil:
				return mc.Failf("%d bytes %.40q decode to %q without an error", len(s.Data), s.Data, target)
			case len(s.Data) != 4 && target != before:
				return mc.Failf("refused %d bytes %.40q changed the name from %q to %q", len(s.Data), s.Data, before, target)
			}
		}

		x.Evals(4, 4)

		return nil
	})

	mc.Family(c, "short-strings", "all strings of up to 6 bytes over space, dash and a letter, encoded, decoded and sent through a stream", func(yield func(text) bool) {
		for n := 0; n <= 6; n++ {
			stop := false
			mc.Each(4, n, func(w []int) bool {
				b := make([]byte, n)
				for i := range w {
					b[i] = " -Az"[w[i]]
				}

				stop = !yield(text{b})

				return !stop
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, s text) error {
		want, ok := encodeName(string(s.Data))

		var buf bytes.Buffer

		err := dag.TagName(s.Data).BinaryWriteTo(binutils.NewBinaryWriter(&buf))
		if (err == nil) != ok || ok && !bytes.Equal(buf.Bytes(), want) {
			return mc.Failf("name %q is written as %q, %v, expected %q, %v", s.Data, buf.Bytes(), err, want, ok)
		}

		if ok {
			r := bytes.NewReader(append(buf.Bytes(), 'x', 'y'))
			target := dag.TagName("abcd")

			if err = target.BinaryReadFrom(binutils.NewBinaryReader(r)); err != nil || string(target) != decodeName(want) || r.Len() != 2 {
				return mc.Failf("name %q reads back as %q, %v with %d bytes left", s.Data, target, err, r.Len())
			}
		}

		x.Evals(2, 2)

		return nil
	})
}

// tag is a tag in a case.
type tag struct {
	P string `json:"p"`
	N string `json:"n"`
}

func (t tag) tag() dag.Tag { return dag.Tag{Parent: dag.TagName(t.P), Name: dag.TagName(t.N)} }

func encodeTag(t tag) ([]byte, bool) {
	p, ok1 := encodeName(t.P)
	n, ok2 := encodeName(t.N)

	return append(append([]byte{}, p...), n...), ok1 && ok2
}

func decoded(t tag) tag {
	p, _ := encodeName(t.P)
	n, _ := encodeName(t.N)

	return tag{decodeName(p), decodeName(n)}
}

func encodeList(tags []tag) ([]byte, bool) {
	res := []byte{byte(len(tags))}
	ok := len(tags) <= 255

	for _, t := range tags {
		data, fine := encodeTag(t)
		res = append(res, data...)
		ok = ok && fine
	}

	return res, ok
}

func list(tags []tag) dag.Idx {
	idx := make(dag.Idx, len(tags))
	for i, t := range tags {
		idx[i] = t.tag()
	}

	return idx
}

func compareList(idx dag.Idx, want []tag) error {
	if idx.Len() != len(want) {
		return mc.Failf("%d tags read, expected %d", idx.Len(), len(want))
	}

	for i, t := range want {
		w := decoded(t)

		got, found := idx.Get(dag.TagID(i))
		if !found || string(got.Parent) != w.P || string(got.Name) != w.N {
			return mc.Failf("tag %d reads back as %q/%q (%v), expected %q/%q", i, got.Parent, got.Name, found, w.P, w.N)
		}
	}

	first := map[string]int{}

	for i, t := range want {
		if _, known := first[decoded(t).N]; !known {
			first[decoded(t).N] = i
		}
	}

	for name, i := range first {
		if id, found := idx.Find(dag.TagName(name)); !found || int(id) != i {
			return mc.Failf("tag %q has id (%d, %v) after reading, expected %d", name, id, found, i)
		}
	}

	return nil
}

func listCase(tags []tag, receiver dag.Idx) error {
	var buf bytes.Buffer

	want, ok := encodeList(tags)
	idx := list(tags)
	err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&buf))

	if (err == nil) != ok {
		return mc.Failf("writing a list of %d tags %.200q: %v, expected success %v", len(tags), fmt.Sprint(tags), err, ok)
	}

	if !ok {
		return nil
	}

	if !bytes.Equal(buf.Bytes(), want) {
		return mc.Failf("list of %d tags %.200q written as %.80q, expected %.80q", len(tags), fmt.Sprint(tags), buf.Bytes(), want)
	}

	r := bytes.NewReader(append(append([]byte{}, want...), 'N', 'O', 'U', 'N', 'x'))
	if err = receiver.BinaryReadFrom(binutils.NewBinaryReader(r)); err != nil {
		return mc.Failf("reading a list of %d tags: %v", len(tags), err)
	}

	if r.Len() != 5 {
		return mc.Failf("after reading a list of %d tags %d bytes are left, expected 5", len(tags), r.Len())
	}

	return compareList(receiver, tags)
}

func unique(i int) tag {
	return tag{fmt.Sprintf("P%03x", i/3), fmt.Sprintf("N%03x", i)}
}

var boundary = []string{"", empty, "NOUN", "    ", "ёж", "----"[:3] + "x", "   x", "x   ", "\x00\x00\x00\x00", "\xff\xff\xff\xff"}

func checkTagCodec(c *mc.C) {
	c.Rule("Every combination of parent and name out of boundary names, every list length, every small list, every concatenation of lists and tags in one " +
		"stream, every position of a name of every wrong length; receivers fresh and holding tags. Non-trivial: at least one tag.")

	mc.Family(c, "tags", "all pairs of parent and name out of 10 boundary and 6 wrong names", func(yield func(tag) bool) {
		names := append(append([]string{}, boundary...), "A", "AB", "ABC", "ABCDE", "-", "-----")
		for _, p := range names {
			for _, n := range names {
				if !yield(tag{p, n}) {
					return
				}
			}
		}
	}, func(x *mc.X, s tag) error {
		want, ok := encodeTag(s)

		for _, pointer := range []bool{false, true} {
			var buf bytes.Buffer

			var err error

			if pointer {
				made := dag.NewTag(dag.TagName(s.P), dag.TagName(s.N))
				err = made.BinaryWriteTo(binutils.NewBinaryWriter(&buf))
			} else {
				err = s.tag().BinaryWriteTo(binutils.NewBinaryWriter(&buf))
			}

			if (err == nil) != ok || ok && !bytes.Equal(buf.Bytes(), want) {
				return mc.Failf("tag %q written as %q, %v, expected %q, %v", s, buf.Bytes(), err, want, ok)
			}
		}

		if ok {
			for _, back := range []dag.Tag{{}, {Parent: "AAAA", Name: "BBBB"}} {
				r := bytes.NewReader(append(append([]byte{}, want...), 1, 2, 3))
				err := back.BinaryReadFrom(binutils.NewBinaryReader(r))
				w := decoded(s)

				if err != nil || string(back.Parent) != w.P || string(back.Name) != w.N || r.Len() != 3 {
					return mc.Failf("tag %q reads back as %q/%q, %v, %d bytes left", s, back.Parent, back.Name, err, r.Len())
				}
			}
		}

		x.Evals(4, 4)

		return listCase([]tag{s}, nil)
	})

	type sized struct {
		Len   int `json:"len"`
		Style int `json:"style"`
	}

	limit := c.Pick(1100, 70000)

	mc.Family(c, "lengths", fmt.Sprintf("lists of every length 0..600 and longer ones up to %d", limit), func(yield func(sized) bool) {
		for n := 0; n <= limit; n++ {
			if n > 600 && n&255 > 3 && n&255 < 253 {
				continue
			}

			if n > 3000 && n&4095 > 3 {
				continue
			}

			for style := 0; style < 3; style++ {
				if !yield(sized{n, style}) {
					return
				}
			}
		}
	}, func(x *mc.X, s sized) error {
		tags := make([]tag, s.Len)
		for i := range tags {
			switch s.Style {
			case 0:
				tags[i] = unique(i % 4096)
			case 1:
				tags[i] = tag{"", boundary[i%len(boundary)]}
			default:
				tags[i] = tag{boundary[i%len(boundary)], unique(i % 4096).N}
			}
		}

		x.Evals(2, 2*boolInt(s.Len > 0))

		if err := listCase(tags, nil); err != nil {
			return err
		}

		return listCase(tags, list([]tag{{"OLDP", "OLDN"}, {"OLDQ", "OLDM"}, {"", "x"}}))
	})

	type lists struct {
		Tags []tag `json:"tags"`
	}

	depth := c.Pick(3, 4)
	alphabet := []tag{{"", "NOUN"}, {"POST", "NOUN"}, {"NOUN", "anim"}, {"NOUN", ""}, {empty, empty}, {"", "ABC"}, {"ABCDE", "NOUN"}, {"    ", "ёж"}}

	mc.Family(c, "small-lists", fmt.Sprintf("all lists of up to %d out of %d tags", depth, len(alphabet)), func(yield func(lists) bool) {
		for n := 0; n <= depth; n++ {
			stop := false
			mc.Each(len(alphabet), n, func(w []int) bool {
				tags := make([]tag, n)
				for i := range w {
					tags[i] = alphabet[w[i]]
				}

				stop = !yield(lists{tags})

				return !stop
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, s lists) error {
		x.Evals(1, boolInt(len(s.Tags) > 0))
		return listCase(s.Tags, list([]tag{{"OLDP", "OLDN"}}))
	})

	type wrong struct {
		Len  int    `json:"len"`
		Pos  int    `json:"pos"`
		Name string `json:"name"`
	}

	mc.Family(c, "wrong-names", "a name of a wrong length (1,2,3,5,6,8) as parent or name at every position of lists of 1..255 tags", func(yield func(wrong) bool) {
		for _, n := range []int{1, 2, 3, 10, 64, 127, 128, 254, 255} {
			for pos := 0; pos < n; pos++ {
				for _, name := range []string{"A", "AB", "ABC", "ABCDE", "ABCDEF", "ABCDEFGH", "ё", "ёжи"} {
					if !yield(wrong{n, pos, name}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, s wrong) error {
		for _, parent := range []bool{false, true} {
			tags := make([]tag, s.Len)
			for i := range tags {
				tags[i] = unique(i)
			}

			if parent {
				tags[s.Pos].P = s.Name
			} else {
				tags[s.Pos].N = s.Name
			}

			if err := listCase(tags, nil); err != nil {
				return err
			}
		}

		x.Evals(2, 2)

		return nil
	})

	type streams struct {
		Items []int `json:"items"`
		Reuse bool  `json:"reuse"`
	}

	long := make([]tag, 255)
	for i := range long {
		long[i] = unique(i)
	}

	items := [][]tag{{}, {{"", "NOUN"}}, {{"POST", "NOUN"}, {"", "VERB"}, {"VERB", "impf"}}, long, {{"", ""}, {"    ", "    "}}}
	streamDepth := c.Pick(4, 6)

	mc.Family(c, "streams", fmt.Sprintf("all sequences of up to %d lists (alternating with single tags) in one stream, fresh and re-used receivers", streamDepth), func(yield func(streams) bool) {
		for n := 1; n <= streamDepth; n++ {
			stop := false
			mc.Each(len(items), n, func(w []int) bool {
				for _, reuse := range []bool{false, true} {
					if stop = !yield(streams{append([]int{}, w...), reuse}); stop {
						return false
					}
				}

				return true
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, s streams) error {
		var (
			buf  bytes.Buffer
			want []byte
		)

		w := binutils.NewBinaryWriter(&buf)
		single := tag{"ABCD", "EFGH"}

		for _, it := range s.Items {
			if err := list(items[it]).BinaryWriteTo(w); err != nil {
				return err
			}

			if err := single.tag().BinaryWriteTo(w); err != nil {
				return err
			}

			data, _ := encodeList(items[it])
			want = append(append(want, data...), "ABCDEFGH"...)
		}

		if !bytes.Equal(buf.Bytes(), want) {
			return mc.Failf("lists %v are written wrong in one stream", s.Items)
		}

		source := bytes.NewReader(want)
		r := binutils.NewBinaryReader(source)

		var (
			target dag.Idx
			kept   []dag.Idx
		)

		for i, it := range s.Items {
			if !s.Reuse {
				target = nil
			}

			if err := target.BinaryReadFrom(r); err != nil {
				return mc.Failf("list %d of %v: %v", i, s.Items, err)
			}

			if err := compareList(target, items[it]); err != nil {
				return mc.Failf("list %d of %v: %v", i, s.Items, err)
			}

			kept = append(kept, target)

			var one dag.Tag
			if err := one.BinaryReadFrom(r); err != nil || one != single.tag() {
				return mc.Failf("tag %d of %v: %v %v", i, s.Items, one, err)
			}
		}

		for i, it := range s.Items {
			if err := compareList(kept[i], items[it]); err != nil {
				return mc.Failf("list %d of %v changed by later reads: %v", i, s.Items, err)
			}
		}

		if source.Len() != 0 {
			return mc.Failf("%d bytes left", source.Len())
		}

		x.Evals(1, 1)

		return nil
	})
}

func boolInt(b bool) int {
	if b {
		return 1
	}

	return 0
}

func scratch() string {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		panic("no scratch folder")
	}

	return dir
}
