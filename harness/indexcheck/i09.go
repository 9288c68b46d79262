//go:build go1.22

package main

import (
	"bytes"
	"fmt"

	"github.com/amarin/binutils"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/dag"
)

// damage is one way to damage an image, a case covers all values put there.
type damage struct {
	Subject int    `json:"subject"`
	Kind    string `json:"kind"`
	At      int    `json:"at"`
	Size    int    `json:"size,omitempty"`
	Of      []int  `json:"of,omitempty"`
}

// wellFormed checks an index loaded from whatever bytes answers every question and all answers agree.
func wellFormed(ix *index.Index) error {
	n := ix.NodesCount()
	if n < 0 || n > 1<<20 {
		return mc.Failf("%d nodes are counted", n)
	}

	paths := make([][]rune, n+1)
	words := make([]string, n+1)
	children := make([]int, n+1)
	counted := 0

	for id := 1; id <= n; id++ {
		node := ix.GetItem(dag.ID(id))
		item := node.Item()
		parent := int(item.Parent)

		if int(item.ID) != id || idOf(node) != id {
			return mc.Failf("node %d has number %d and an item of %d", id, idOf(node), item.ID)
		}

		if parent >= id {
			return mc.Failf("node %d is a child of %d", id, parent)
		}

		children[parent]++

		paths[id] = append(append([]rune{}, paths[parent]...), item.Letter)
		words[id] = words[parent] + string(item.Letter)

		if got := node.Word(); got != words[id] {
			return mc.Failf("node %d has word %q, its parent and letter give %q", id, got, words[id])
		}

		found, err := ix.FetchRunes(paths[id])
		if err != nil || idOf(found) != id {
			return mc.Failf("letters %q of node %d lead to %d, %v", paths[id], id, idOf(found), err)
		}

		if again, err := ix.FetchItemFromParent(item.Parent, []rune{item.Letter}); err != nil || idOf(again) != id {
			return mc.Failf("node %d is not found from its parent: %d, %v", id, idOf(again), err)
		}

		if found, err = ix.Get(dag.ID(id)); err != nil || idOf(found) != id {
			return mc.Failf("node %d is not given: %v", id, err)
		}

		sets := node.TagSets()

		ids, err := ix.Variants(item.Variants)
		if err != nil || len(ids) != len(sets) {
			return mc.Failf("node %d has %d tag sets of %d, %v", id, len(sets), len(ids), err)
		}

		for i, tagSetID := range ids {
			tagSet, ok := ix.TagSetIndex().Get(tagSetID)
			if !ok || len(tagSet) != len(sets[i]) {
				return mc.Failf("node %d has an unknown tag set %#x", id, uint32(tagSetID))
			}

			for j, tagID := range tagSet {
				if tag, ok := ix.Tags().Get(tagID); !ok || tag != sets[i][j] {
					return mc.Failf("node %d has tag %v for %d, %v", id, sets[i][j], tagID, ok)
				}
			}
		}

		if len(sets) > 0 {
			counted++
		}
	}

	for id := 0; id <= n; id++ {
		if got := len(ix.GetChildrenMap(dag.ID(id))); got != children[id] {
			return mc.Failf("node %d has %d children of %d", id, got, children[id])
		}
	}

	if got := ix.WordsCount(); got != counted {
		return mc.Failf("%d words are counted of %d", got, counted)
	}

	if root := ix.GetItem(0); root.Word() != "" || len(root.TagSets()) > 0 || root.Item() != (index.Item{}) {
		return mc.Failf("root has word %q, sets %v", root.Word(), root.TagSets())
	}

	if node, err := ix.Get(dag.ID(n + 1)); err == nil {
		return mc.Failf("node %d of %d is given: %v", n+1, n, node)
	}

	for _, runes := range [][]rune{[]rune("absent"), {'я', -1}} {
		_, _ = ix.FetchRunes(runes)
	}

	return nil
}

// continued adds to an index loaded from whatever bytes, optimizes, saves and loads it.
func continued(ix *index.Index) error {
	n := ix.NodesCount()
	tags := ix.Tags()

	if len(tags) < 255 {
		ix.TagID("NewT", "")
		ix.TagID("Next", "NewT")
	}

	tags = ix.Tags()

	// one more word makes combinations no word uses any more, all others stay as loaded
	if len(tags) > 1 {
		node, err := ix.AddToNode(0, []rune("new"))
		if err != nil {
			return mc.Failf("adding a word: %v", err)
		}

		for _, tag := range tags[len(tags)-2:] {
			if err = node.AddTagSet(tag.Name); err != nil {
				return mc.Failf("adding a tag set to a new word: %v", err)
			}
		}

		n = ix.NodesCount()
	}

	loaded := dump(ix, false)

	// every word has what it has
	for id := 1; id <= n; id++ {
		node := ix.GetItem(dag.ID(id))
		sets := node.TagSets()

		for _, tagSet := range sets {
			var names []dag.TagName
			for _, tag := range tagSet {
				names = append(names, tag.Name)
			}

			if err := node.AddTagSet(names...); err != nil {
				return mc.Failf("adding the tag set %v of node %d: %v", names, id, err)
			}

			if now := node.TagSets(); fmt.Sprint(now) != fmt.Sprint(sets) {
				return mc.Failf("adding its tag set %v to node %d makes %v of %v", names, id, now, sets)
			}
		}
	}

	if after := dump(ix, false); after != loaded {
		return mc.Failf("adding the tag sets words have changes answers: %s", firstDifference(after, loaded))
	}

	ix.Optimize()

	if after := dump(ix, false); after != loaded {
		return mc.Failf("optimizing changes answers: %s", firstDifference(after, loaded))
	}

	for id := 0; id <= n; id++ {
		for i, rest := range []string{"q", "aя"} {
			node, err := ix.AddToNode(dag.ID(id), []rune(rest))
			if err != nil {
				return mc.Failf("adding %q to node %d: %v", rest, id, err)
			}

			if len(tags) == 0 {
				continue
			}

			before := len(node.TagSets())

			if err = node.AddTagSet(tags[(id+i)%len(tags)].Name, tags[len(tags)-1].Name); err != nil {
				return mc.Failf("adding a tag set to node %d: %v", idOf(node), err)
			}

			if after := len(node.TagSets()); after != before && after != before+1 {
				return mc.Failf("adding a tag set to %d of them makes %d", before, after)
			}
		}

		if id > 0 && len(tags) > 0 {
			node := ix.GetItem(dag.ID(id))
			if err := node.AddTagSet(tags[id%len(tags)].Name); err != nil {
				return mc.Failf("adding a tag set to node %d: %v", id, err)
			}
		}
	}

	if err := wellFormed(ix); err != nil {
		return fmt.Errorf("after adding: %w", err)
	}

	before := dump(ix, false)
	ix.Optimize()

	if after := dump(ix, false); after != before {
		return mc.Failf("optimizing changes answers: %s", firstDifference(after, before))
	}

	data, err := save(ix)
	if err != nil {
		return nil // lists could have become too long
	}

	again := index.New()
	if err = load(again, data, 1); err != nil {
		return err
	}

	if after := dump(again, false); after != before {
		return mc.Failf("saving and loading changes answers: %s", firstDifference(after, before))
	}

	return nil
}

// loadDamaged loads an image of any bytes into a new index, and refused ones into a used index.
func loadDamaged(x *mc.X, image, original []byte, used bool) error {
	source := bytes.NewReader(image)
	ix := index.New()

	x.Evals(1, 1)

	if err := ix.BinaryReadFrom(binutils.NewBinaryReader(source)); err != nil {
		x.Outcome("refused")

		if !used {
			return nil
		}

		// whatever index it was loaded into stays as it was
		target := dirty()
		was := dump(target, true)

		if err = target.BinaryReadFrom(binutils.NewBinaryReader(bytes.NewReader(image))); err == nil {
			return mc.Failf("an image refused by a new index is loaded into a used one")
		}

		if now := dump(target, true); now != was {
			return mc.Failf("a refused image changes the index: %s", firstDifference(now, was))
		}

		if len(image)%16 > 0 {
			return nil
		}

		if err = wellFormed(target); err != nil {
			return err
		}

		return continued(target)
	}

	x.Outcome("loaded")

	if err := wellFormed(ix); err != nil {
		return err
	}

	taken := image[:len(image)-source.Len()]
	if saved, err := save(ix); err != nil || !bytes.Equal(saved, taken) {
		return mc.Failf("%d bytes are loaded, but %d others are saved: %v", len(taken), len(saved), err)
	}

	if bytes.Equal(taken, original) {
		return nil
	}

	return continued(ix)
}

// values which replace a byte: all, or those which are likely to matter.
func values(was byte, all bool) (res []byte) {
	if !all {
		for _, v := range []byte{0, 1, 2, 3, 4, was - 1, was + 1, was ^ 0x80, 0x80, 0xff} {
			if v != was && !bytes.Contains(res, []byte{v}) {
				res = append(res, v)
			}
		}

		return res
	}

	for v := 0; v < 256; v++ {
		if byte(v) != was {
			res = append(res, byte(v))
		}
	}

	return res
}

// sectionsOf splits an image by its section markers.
func sectionsOf(image []byte) (res [][]byte) {
	for _, marker := range []string{"TD\x00", "TI\x00", "CD\x00", "ID\x00"} {
		pos := bytes.LastIndex(image, []byte(marker))
		if pos < 0 {
			return nil
		}

		res = append(res, image[pos:])
		if len(res) > 1 {
			previous := res[len(res)-2]
			res[len(res)-2] = previous[:len(previous)-len(image)+pos]
		}
	}

	return res
}

// checkDamage checks I09.
func checkDamage(c *mc.C) {
	c.Rule("Images of 11 small indexes: every byte replaced by every other value; every pair of bytes by values likely to matter (zero, small, neighbours, high " +
		"bits); every run of bytes removed, repeated, zeroed or filled; every item and 4 byte word put in place of every other; all combinations of the sections " +
		"of all images. A load gives an error, leaving (tried for all section combinations, for a fixed part of the others) a used index as it was, or an index whose answers all agree, which is saved as the bytes loaded, and " +
		"which is optimized, continued, optimized, saved and loaded again. Every evaluation is a different image.")

	var images [][]byte

	for n := 0; n < 11; n++ {
		w, err := subject(min(n, 8))

		switch n {
		case 6: // the images of 255 tags and 255 sets are replaced by small ones
			w = newWorld(false)
			err = w.add("я\U0001F600", "string")
		case 7:
			w = newWorld(false)
			err = described{Tags: 2, Sets: 2, Size: 1, Collections: 2, Depth: 2, Nodes: 2}.build(w)
		case 9:
			w = newWorld(false)
			for i := 0; i < 3 && err == nil; i++ {
				if err = w.register(tagName(i), ""); err == nil {
					err = w.attribute("ab"[:1+i%2], set{tagName(i)}, "add")
				}
			}
		case 10: // sets no node has any more
			w = newWorld(false)
			for i := 0; i < 3 && err == nil; i++ {
				if err = w.register(tagName(i), ""); err == nil {
					err = w.attribute("a", set{tagName(i)}, "add")
				}
			}
		}

		var image []byte
		if err == nil {
			image, err = save(w.ix)
		}

		if err != nil {
			mc.Family(c, "subjects", "building subjects", func(yield func(int) bool) { yield(n) }, func(x *mc.X, n int) error { return err })
			return
		}

		images = append(images, image)
	}

	c.Extra("image_sizes", fmt.Sprint(lengthsOf(images)))

	mc.Family(c, "byte", "every byte of every image replaced by every other value", func(yield func(damage) bool) {
		for n, image := range images {
			for at := range image {
				if !yield(damage{Subject: n, Kind: "byte", At: at}) {
					return
				}
			}
		}
	}, func(x *mc.X, p damage) error {
		for _, v := range values(images[p.Subject][p.At], true) {
			image := append([]byte{}, images[p.Subject]...)
			image[p.At] = v

			if err := loadDamaged(x, image, images[p.Subject], v < 4 || v%16 == 15 || !x.Quick()); err != nil {
				return fmt.Errorf("byte %d of image %d as %#x: %w", p.At, p.Subject, v, err)
			}
		}

		return nil
	})

	limit := c.Pick(130, 260)
	large := c.Pick(400, 1000)

	mc.Family(c, "pairs", "every pair of bytes of every image up to a size replaced by values likely to matter", func(yield func(damage) bool) {
		for n, image := range images {
			for at := 0; at < len(image) && len(image) <= limit; at++ {
				if !yield(damage{Subject: n, Kind: "pair", At: at}) {
					return
				}
			}
		}
	}, func(x *mc.X, p damage) error {
		for next := p.At + 1; next < len(images[p.Subject]) && !x.Expired(); next++ {
			for _, v := range values(images[p.Subject][p.At], false) {
				for _, u := range values(images[p.Subject][next], false) {
					image := append([]byte{}, images[p.Subject]...)
					image[p.At], image[next] = v, u

					if err := loadDamaged(x, image, images[p.Subject], (p.At+next+int(u))%8 == 0); err != nil {
						return fmt.Errorf("bytes %d and %d of image %d as %#x and %#x: %w", p.At, next, p.Subject, v, u, err)
					}
				}
			}
		}

		return nil
	})

	mc.Family(c, "runs", "every run of 1 to 20 (40) bytes of every image up to a size removed, repeated, zeroed, filled with ones, reversed; every value put between any two bytes", func(yield func(damage) bool) {
		for n, image := range images {
			for at := 0; at <= len(image) && len(image) <= large; at++ {
				if !yield(damage{Subject: n, Kind: "run", At: at}) {
					return
				}
			}
		}
	}, func(x *mc.X, p damage) error {
		image := images[p.Subject]

		try := func(kind string, size int, parts ...[]byte) error {
			if err := loadDamaged(x, bytes.Join(parts, nil), image, (p.At+size)%4 == 0); err != nil {
				return fmt.Errorf("%s %d at %d of image %d: %w", kind, size, p.At, p.Subject, err)
			}

			return nil
		}

		for v := 0; v < 256; v++ {
			if err := try("value", v, image[:p.At], []byte{byte(v)}, image[p.At:]); err != nil {
				return err
			}
		}

		for size := 1; size <= c.Pick(20, 40) && p.At+size <= len(image); size++ {
			run, rest := image[p.At:p.At+size], image[p.At+size:]
			reversed := make([]byte, size)

			for i, b := range run {
				reversed[size-1-i] = b
			}

			if err := try("removed", size, image[:p.At], rest); err != nil {
				return err
			}

			if err := try("repeated", size, image[:p.At], run, run, rest); err != nil {
				return err
			}

			if err := try("zeroed", size, image[:p.At], make([]byte, size), rest); err != nil {
				return err
			}

			if err := try("filled", size, image[:p.At], bytes.Repeat([]byte{0xff}, size), rest); err != nil {
				return err
			}

			if err := try("reversed", size, image[:p.At], reversed, rest); err != nil {
				return err
			}
		}

		return nil
	})

	mc.Family(c, "moved", "every 4 or 16 (or 8) bytes of every image up to a size put in place of any others, and exchanged with any others", func(yield func(damage) bool) {
		for n, image := range images {
			for at := 0; at < len(image) && len(image) <= large; at++ {
				for _, size := range []int{4, 16, 8}[:c.Pick(2, 3)] {
					if at+size <= len(image) && !yield(damage{Subject: n, Kind: "moved", At: at, Size: size}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, p damage) error {
		original := images[p.Subject]
		run := original[p.At : p.At+p.Size]

		for to := 0; to+p.Size <= len(original) && !x.Expired(); to++ {
			image := append([]byte{}, original...)
			copy(image[to:], run)

			if err := loadDamaged(x, image, original, (p.At+to)%4 == 0); err != nil {
				return fmt.Errorf("%d bytes of image %d copied from %d to %d: %w", p.Size, p.Subject, p.At, to, err)
			}

			if to+p.Size <= p.At {
				copy(image[p.At:], original[to:to+p.Size])

				if err := loadDamaged(x, image, original, (p.At+to)%4 == 0); err != nil {
					return fmt.Errorf("%d bytes of image %d exchanged between %d and %d: %w", p.Size, p.Subject, p.At, to, err)
				}
			}
		}

		return nil
	})

	mc.Family(c, "sections", "all combinations of the sections of all images, in order or with two of them exchanged", func(yield func(damage) bool) {
		mc.Each(len(images), 4, func(of []int) bool {
			return yield(damage{Kind: "sections", Of: append([]int{}, of...)})
		})
	}, func(x *mc.X, p damage) error {
		var parts [][]byte

		for i, n := range p.Of {
			sections := sectionsOf(images[n])
			if sections == nil {
				return nil // the format does not have these sections
			}

			parts = append(parts, sections[i])
		}

		if err := loadDamaged(x, bytes.Join(parts, nil), nil, true); err != nil {
			return fmt.Errorf("sections of %v: %w", p.Of, err)
		}

		i := p.Of[0] % 4
		parts[i], parts[(i+1)%4] = parts[(i+1)%4], parts[i]

		return loadDamaged(x, bytes.Join(parts, nil), nil, true)
	})

	c.Assume("the index loaded into is not used by others meanwhile")
}
