//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
)

// subject is an index to save and load, chosen by its number.
func subject(n int) (*world, error) {
	w := newWorld(false)
	if n == 0 {
		return w, nil
	}

	fixed := []described{
		{},
		{Tags: 1},
		{Tags: 1, Sets: 1, Size: 1},
		{Tags: 3, Sets: 3, Size: 2, Nodes: 3},
		{Tags: 4, Sets: 6, Size: 2, Collections: 4, Depth: 3, Nodes: 8},
		{Tags: 9, Sets: 20, Size: 7, Collections: 10, Depth: 10, Nodes: 9},
		{Tags: 255, Sets: 2, Size: 255, Nodes: 5},
		{Tags: 24, Sets: 270, Size: 2, Collections: 3, Depth: 255, Nodes: 20},
	}

	if n < len(fixed) {
		return w, fixed[n].build(w)
	}

	// mixed sizes
	for i := 0; i < 5; i++ {
		if err := w.register(tagName(i), ""); err != nil {
			return w, err
		}
	}

	for i, word := range []string{"a", "ab", "я\U0001F600", "b"} {
		for j := 0; j <= i; j++ {
			tags := set{tagName(j), tagName(j + 1), tagName((j + 2) % 5)}[:1+(i+j)%3]
			if err := w.attribute(word, tags, "add"); err != nil {
				return w, err
			}
		}
	}

	return w, nil
}

const (
	subjects = 9
	small    = 5 // subjects 0..4 and 8 are small
)

type fault struct {
	Subject int    `json:"subject"`
	At      int    `json:"at"`
	Kind    string `json:"kind"`
	Value   int    `json:"value"`
	Pieces  []int  `json:"pieces,omitempty"`
}

func checkImageFaults(c *mc.C) {
	c.Rule("Images of 9 indexes (empty, tags only, up to all 255 tags, up to 255 sets per word) are cut and failed at every byte, delivered in pieces of every " +
		"size and split at every position (every pair of positions for small ones), every byte of every section marker is replaced by every other value, " +
		"savings fail at every byte in 3 ways, lists are made longer than their length fields. Every evaluation is a different fault.")

	images := make([][]byte, subjects)
	dumps := make([]string, subjects)

	for n := range images {
		w, err := subject(n)
		if err == nil {
			dumps[n] = dump(w.ix, true)
			images[n], err = save(w.ix)
		}

		if err != nil {
			mc.Family(c, "subjects", "building subjects", func(yield func(int) bool) { yield(n) }, func(x *mc.X, n int) error {
				w, err := subject(n)
				if err != nil {
					return err
				}

				_, err = save(w.ix)

				return err
			})

			return
		}
	}

	isSmall := func(n int) bool { return n < small || n == subjects-1 }

	mc.Family(c, "cut", "every image cut at every byte, ended by EOF, an error after or together with the last bytes, one byte at a time, or one read failing there; loaded into a new and into a used index", func(yield func(fault) bool) {
		for n, image := range images {
			for at := 0; at < len(image); at++ {
				for _, kind := range []string{"eof", "error", "joined", "bytewise", "error-bytewise", "dirty", "once", "once-eof"} {
					if !yield(fault{Subject: n, At: at, Kind: kind}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, p fault) error {
		source := &mc.Reader{Data: images[p.Subject][:p.At]}
		target := index.New()

		switch p.Kind {
		case "error":
			source.End = mc.ErrInjected
		case "joined":
			source.End, source.Joined = mc.ErrInjected, true
		case "bytewise":
			source.Pieces = ones(p.At)
		case "error-bytewise":
			source.Pieces, source.End = ones(p.At), mc.ErrInjected
		case "dirty":
			target = dirty()
		case "once":
			source.Data, source.Break = images[p.Subject], p.At+1
		case "once-eof":
			source.Data, source.Break, source.End = images[p.Subject], p.At+1, io.EOF
		}

		x.Evals(1, 1)

		if p.Kind == "joined" && p.At == 0 {
			return nil
		}

		if err := target.BinaryReadFrom(binutils.NewBinaryReader(source)); err == nil {
			return mc.Failf("image of %d bytes cut at %d (%s) is loaded without an error", len(images[p.Subject]), p.At, p.Kind)
		}

		return nil
	})

	whole := func(x *mc.X, p fault) error {
		source := &mc.Reader{Data: images[p.Subject], Pieces: append([]int{}, p.Pieces...)}
		if p.Value > 0 {
			for sum := 0; sum < len(images[p.Subject]); sum += p.Value {
				source.Pieces = append(source.Pieces, p.Value)
				if p.Kind == "empty reads" {
					source.Pieces = append(source.Pieces, 0)
				}
			}
		}

		source.Joined = p.Kind == "joined"

		target := index.New()
		if p.At == -1 {
			target = dirty()
		}

		x.Evals(1, 1)

		if err := target.BinaryReadFrom(binutils.NewBinaryReader(source)); err != nil {
			return mc.Failf("image delivered in pieces is refused: %v", err)
		}

		if got := dump(target, true); got != dumps[p.Subject] {
			return mc.Failf("image delivered in pieces is loaded as another index: %s", firstDifference(got, dumps[p.Subject]))
		}

		if again, err := save(target); err != nil || !bytes.Equal(again, images[p.Subject]) {
			return mc.Failf("image delivered in pieces is saved differently: %v", err)
		}

		return nil
	}

	mc.Family(c, "pieces", "every image delivered in pieces of every size, with and without empty reads between, the end joined to the last piece, into new and used indexes", func(yield func(fault) bool) {
		for n, image := range images {
			limit := len(image)
			if !isSmall(n) {
				limit = 40
			}

			for size := 1; size <= limit; size++ {
				for _, kind := range []string{"plain", "empty reads", "joined"} {
					if !yield(fault{Subject: n, Kind: kind, Value: size, At: -(size % 2)}) {
						return
					}
				}
			}
		}
	}, whole)

	mc.Family(c, "splits", "every image split at every byte; small images split at every pair of bytes", func(yield func(fault) bool) {
		for n, image := range images {
			if !isSmall(n) && c.Quick() && len(image) > 4000 {
				continue
			}

			for at := 1; at < len(image); at++ {
				if !yield(fault{Subject: n, Pieces: []int{at}}) {
					return
				}

				for next := 1; len(image) <= c.Pick(300, 800) && at+next < len(image); next++ {
					if !yield(fault{Subject: n, Pieces: []int{at, next}, Kind: []string{"", "joined"}[next%2]}) {
						return
					}
				}
			}
		}
	}, whole)

	mc.Family(c, "markers", "every byte of every section marker replaced by every other value; every marker removed or replaced by each other one", func(yield func(fault) bool) {
		for n := range images {
			for m := 0; m < 4; m++ {
				for at := 0; at < 3; at++ {
					for value := 0; value < 256; value++ {
						if !yield(fault{Subject: n, Kind: "byte", Value: value, At: m, Pieces: []int{at}}) {
							return
						}
					}
				}

				if !yield(fault{Subject: n, Kind: "removed", At: m}) {
					return
				}

				for other := 0; other < 4; other++ {
					if other != m && !yield(fault{Subject: n, Kind: "other", At: m, Value: other}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, p fault) error {
		image := append([]byte{}, images[p.Subject]...)
		markers := []string{"TD\x00", "TI\x00", "CD\x00", "ID\x00"}
		pos := bytes.Index(image, []byte(markers[p.At]))

		if pos < 0 {
			return nil // the format does not use this marker
		}

		switch p.Kind {
		case "byte":
			if image[pos+p.Pieces[0]] == byte(p.Value) {
				return nil
			}

			image[pos+p.Pieces[0]] = byte(p.Value)
		case "removed":
			image = append(image[:pos], image[pos+3:]...)
		case "other":
			copy(image[pos:], markers[p.Value])
		}

		x.Evals(1, 1)

		if err := index.New().BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(image))); err == nil {
			return mc.Failf("image with marker %q changed (%s %d) is loaded", markers[p.At], p.Kind, p.Value)
		}

		return nil
	})

	mc.Family(c, "save", "saving every index to a destination failing at every byte in 3 ways, for good or once", func(yield func(fault) bool) {
		for n, image := range images {
			for at := 0; at < len(image); at++ {
				for _, kind := range []string{"error", "refuse", "short", "once", "once-short"} {
					if !isSmall(n) && c.Quick() && at%7 > 0 && at < len(image)-100 && at > 100 {
						continue
					}

					if !yield(fault{Subject: n, At: at, Kind: kind}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, p fault) error {
		// a fresh index every time for small ones: a failed save has to leave it as it was
		w, err := subject(p.Subject)
		if err != nil {
			return err
		}

		target := &mc.Writer{Limit: p.At, Mode: p.Kind}

		x.Evals(1, 1)

		if err = w.ix.BinaryWriteTo(binutils.NewBinaryWriter(target)); err == nil {
			return mc.Failf("saving %d bytes to a destination failing at %d (%s) reports no error", len(images[p.Subject]), p.At, p.Kind)
		}

		if got := dump(w.ix, true); got != dumps[p.Subject] {
			return mc.Failf("failed saving changes the index: %s", firstDifference(got, dumps[p.Subject]))
		}

		if again, err := save(w.ix); err != nil || !bytes.Equal(again, images[p.Subject]) {
			return mc.Failf("saving after a failed saving: %v", err)
		}

		if p.At%16 == 0 { // and it is usable
			if err = w.add("zzя", "string"); err != nil {
				return err
			}

			return w.checkTags()
		}

		return nil
	})

	type long struct {
		What string `json:"what"`
		N    int    `json:"n"`
		OK   bool   `json:"ok"`
	}

	var longs []long

	for _, n := range []int{254, 255, 256} {
		longs = append(longs, long{"tags", n, n < 256}, long{"sets of a word", n, n < 256}, long{"tags of a set", n, n < 256})
	}

	for _, n := range []int{257, 258, 300} {
		longs = append(longs, long{"sets of a word", n, false})
	}

	for n := 0; n < 12; n++ {
		longs = append(longs, long{"name", n, n == 0 || n == 4})
	}

	longs = append(longs, long{"tag sets", 65535, true}, long{"tag sets", 65536, false})

	mc.Family(c, "lengths", "lists and names at and beyond the limits of their length fields", func(yield func(long) bool) {
		for i := len(longs) - 1; i >= 0; i-- {
			if !yield(longs[i]) {
				return
			}
		}
	}, func(x *mc.X, p long) error {
		w := newWorld(false)

		var err error

		switch p.What {
		case "tags":
			err = described{Tags: p.N}.build(w)
		case "tags of a set":
			err = described{Tags: p.N, Sets: 1, Size: p.N}.build(w)
		case "sets of a word":
			err = described{Tags: 25, Sets: p.N, Size: 2, Collections: p.N, Depth: p.N}.build(w)
		case "tag sets":
			err = described{Tags: 255, Sets: p.N, Size: 3}.build(w)
		case "name":
			err = w.register("ABCDEFGHIJKLM"[:p.N], "")
			if err == nil && p.N > 0 {
				err = w.attribute("a", set{"ABCDEFGHIJKLM"[:p.N]}, "add")
			}
		}

		if err != nil {
			return err
		}

		x.Evals(1, 1)

		before := dump(w.ix, true)

		data, err := save(w.ix)
		if !p.OK {
			if err == nil {
				return mc.Failf("an index with %d %s is saved into %d bytes instead of being refused", p.N, p.What, len(data))
			}

			if after := dump(w.ix, true); after != before {
				return mc.Failf("refused saving changes the index: %s", firstDifference(after, before))
			}

			return nil
		}

		if err != nil {
			return mc.Failf("an index with %d %s is refused: %v", p.N, p.What, err)
		}

		if p.What == "name" {
			return nil
		}

		target := index.New()
		if err = load(target, data, 1); err != nil {
			return err
		}

		if after := dump(target, true); after != before {
			return mc.Failf("an index with %d %s is loaded differently: %s", p.N, p.What, firstDifference(after, before))
		}

		return nil
	})

	// the stores themselves
	mc.Family(c, "store-lengths", "stores with lists at and beyond the limits of their length fields", func(yield func(long) bool) {
		for _, n := range []int{254, 255, 256, 257, 511, 512, 65536, 65791} {
			for _, what := range []string{"tag set", "combination", "combination tables"} {
				if !yield(long{what, n, n < 256}) {
					return
				}
			}
		}

		for _, n := range []int{65534, 65535, 65536, 65537, 131071, 131072} {
			if !yield(long{"tag set table", n, n < 65536}) {
				return
			}
		}
	}, func(x *mc.X, p long) error {
		var buf bytes.Buffer

		writer := binutils.NewBinaryWriter(&buf)
		x.Evals(1, 1)

		var err error

		switch p.What {
		case "tag set":
			err = make(index.TagSet, p.N).BinaryWriteTo(writer)
		case "combination":
			err = make(index.TagSetIDCollection, p.N).BinaryWriteTo(writer)
		case "combination tables":
			err = make(index.VariantsIndex, p.N).BinaryWriteTo(writer)
		case "tag set table":
			err = make(index.TagSetTable, p.N).BinaryWriteTo(writer)
		}

		if (err == nil) != p.OK {
			return mc.Failf("%s of %d: %v", p.What, p.N, err)
		}

		return nil
	})

	c.Assume("writers follow the io.Writer contract; damage inside an image is checked by I09")
	c.Extra("image_sizes", fmt.Sprint(lengthsOf(images)))
}

func lengthsOf(images [][]byte) (res []int) {
	for _, image := range images {
		res = append(res, len(image))
	}

	return res
}

func ones(n int) []int {
	res := make([]int, n)
	for i := range res {
		res[i] = 1
	}

	return res
}
