//go:build go1.22

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/amarin/gomorphy/internal/zz_verif/mc"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// gram is a grammeme: name and parent.
type gram struct {
	Name   string `json:"name"`
	Parent string `json:"parent,omitempty"`
}

type form struct {
	Text string   `json:"t"`
	Tags []string `json:"g,omitempty"`
}

type lemma struct {
	Tags  []string `json:"g,omitempty"`
	Forms []form   `json:"f"`
}

// dict is a small dictionary.
type dict struct {
	Grams  []gram  `json:"grammemes"`
	Lemmas []lemma `json:"lemmata"`
}

var escaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;")

// tokens renders a dictionary; decorations go between tokens.
func (d dict) tokens() (t []string) {
	t = append(t, `<?xml version="1.0" encoding="utf-8"?>`, `<dictionary version="0.92" revision="7">`, `<grammemes>`)

	for _, g := range d.Grams {
		t = append(t, fmt.Sprintf(`<grammeme parent="%s">`, g.Parent), `<name>`)
		if len(g.Name) > 1 {
			t = append(t, g.Name[:1], g.Name[1:])
		} else {
			t = append(t, g.Name)
		}

		t = append(t, `</name>`, `<alias>`, `</alias>`, `<description>`, `</description>`, `</grammeme>`)
	}

	t = append(t, `</grammemes>`, `<lemmata>`)

	for i, l := range d.Lemmas {
		t = append(t, fmt.Sprintf(`<lemma id="%d" rev="%d">`, i+1, 10*i), `<l t="x">`)

		for _, g := range l.Tags {
			t = append(t, fmt.Sprintf(`<g v="%s">`, g), `</g>`)
		}

		t = append(t, `</l>`)

		for _, f := range l.Forms {
			t = append(t, fmt.Sprintf(`<f t="%s">`, escaper.Replace(f.Text)))

			for _, g := range f.Tags {
				t = append(t, fmt.Sprintf(`<g v="%s">`, g), `</g>`)
			}

			t = append(t, `</f>`)
		}

		t = append(t, `</lemma>`)
	}

	return append(t, `</lemmata>`, `</dictionary>`)
}

func (d dict) text() string { return strings.Join(d.tokens(), "") }

// imported imports a document and loads the result.
func imported(text string, maxRead int, pace time.Duration) (content string, err error) {
	w := newWorld()
	w.MaxRead, w.Pace = maxRead, pace
	w.SetFile(unpackedFile, []byte(text), w.Clock)

	o := process(w, nil, func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) })
	if o.panic != "" {
		return "", mc.Failf("import panics: %s", o.panic)
	}

	if o.err != nil {
		return "", mc.Failf("import fails: %v", o.err)
	}

	content, err = load(w)
	if err != nil {
		return "", mc.Failf("loading the imported index: %v", err)
	}

	return content, nil
}

func checkDocument(x *mc.X, text string, maxRead int) error { return checkPaced(x, text, maxRead, 0) }

func checkPaced(x *mc.X, text string, maxRead int, pace time.Duration) error {
	x.Evals(1, 1)

	content, err := imported(text, maxRead, pace)
	if err != nil {
		return mc.Failf("%v\ndocument: %.3000s", err, text)
	}

	if expected := expectedOf(text); content != expected {
		return mc.Failf("imported index has\n%.2000s\ninstead of\n%.2000s\ndocument: %.3000s", content, expected, text)
	}

	x.Outcome(content)

	return nil
}

// refused imports a defective document over a compiled index.
func refused(x *mc.X, text, defect string, piece int) error {
	x.Evals(1, 1)

	w := newWorld()
	w.MaxRead = piece
	old := []byte("previous")
	w.SetFile(unpackedFile, []byte(text), w.Clock)
	w.SetFile(compiledFile, old, w.Clock)

	o := process(w, nil, func(l *opencorpora.Loader) error { return l.ParseUpdate(unpackedFile, compiledFile) })
	if o.panic != "" {
		return mc.Failf("import of a document with %s panics: %s", defect, o.panic)
	}

	if o.err == nil {
		return mc.Failf("import of a document with %s succeeds:\n%.3000s", defect, text)
	}

	if n := w.Nodes[compiledFile]; n == nil || string(n.Data) != string(old) {
		return mc.Failf("import of a document with %s fails but replaces the compiled index:\n%.3000s", defect, text)
	}

	return nil
}

var abcd = []gram{{"AAAA", ""}, {"BBBB", "AAAA"}, {"CCCC", ""}, {"DDDD", "BBBB"}}

// baseDoc has everything.
func baseDoc() dict {
	return dict{
		Grams: abcd[:3],
		Lemmas: []lemma{
			{[]string{"AAAA"}, []form{{"аб", []string{"BBBB"}}, {"а", nil}}},
			{[]string{"BBBB", "CCCC"}, []form{{"аб", nil}, {"b", []string{"AAAA"}}}},
		},
	}
}

func lemmas(words []string) (res []lemma) {
	var forms []form

	for _, w := range words {
		for _, tags := range [][]string{nil, {"CCCC"}, {"DDDD"}, {"CCCC", "DDDD"}, {"DDDD", "CCCC"}} {
			forms = append(forms, form{w, tags})
		}
	}

	for _, tags := range [][]string{nil, {"AAAA"}, {"AAAA", "BBBB"}, {"BBBB", "AAAA"}} {
		for _, f := range forms {
			res = append(res, lemma{tags, []form{f}})

			for _, g := range forms {
				res = append(res, lemma{tags, []form{f, g}})
			}
		}
	}

	// the same sets put together differently
	for _, w := range words {
		res = append(res, lemma{[]string{"AAAA"}, []form{{w, []string{"BBBB"}}}}, lemma{[]string{"CCCC"}, []form{{w, []string{"AAAA"}}}})
	}

	return res
}

type decorated struct {
	Doc   int      `json:"doc"`
	At    []int    `json:"at"`
	With  []string `json:"with"`
	Piece int      `json:"piece,omitempty"`
}

var decorations = []string{"\n\t ", "\r\n", "<!-- c -->", "<!---->", "<?pi x?>", `<!-- <g v="CCCC"/> </lemma> -->`, `<?xml-stylesheet href="a"?>`}

func decorationDocs() []dict {
	return []dict{
		baseDoc(),
		{Grams: abcd[:1], Lemmas: []lemma{{nil, []form{{"яя", []string{"AAAA"}}}}}},
		{Grams: abcd[:2], Lemmas: []lemma{{[]string{"BBBB"}, nil}, {nil, []form{{"a", nil}}}}},
	}
}

func (d decorated) text() string {
	var b strings.Builder

	for i, token := range decorationDocs()[d.Doc].tokens() {
		b.WriteString(token)

		for j, at := range d.At {
			if at == i {
				b.WriteString(d.With[j])
			}
		}
	}

	return b.String()
}

// allowed tells whether a decoration has no meaning after token i.
func allowed(tokens []string, i int, with string) bool {
	if !strings.ContainsAny(with[:1], "\n\r\t ") {
		return true
	}

	for j := i; j >= 0; j-- { // whitespace belongs to the name inside of the name element
		switch tokens[j] {
		case "</name>":
			return true
		case "<name>":
			return false
		}
	}

	return true
}

// parentAt is the element a token following token i belongs to.
func parentAt(tokens []string, i int) string {
	var open []string

	for _, token := range tokens[1 : i+1] {
		switch {
		case strings.HasPrefix(token, "</"):
			open = open[:len(open)-1]
		case strings.HasPrefix(token, "<"):
			name, _, _ := strings.Cut(strings.Trim(token, "<>"), " ")
			open = append(open, name)
		}
	}

	if len(open) == 0 {
		return ""
	}

	return open[len(open)-1]
}

type defect struct {
	Name  string `json:"name"`
	Text  []byte `json:"text"`
	Piece int    `json:"piece,omitempty"`
}

// defects lists defective variants of a document.
func defects(d dict, yield func(name, text string) bool) bool {
	tokens := d.tokens()
	text := strings.Join(tokens, "")

	for at := range text {
		if !yield(fmt.Sprintf("its end at byte %d", at), text[:at]) {
			return false
		}
	}

	for _, without := range []string{"", "\n", "<!-- c -->", tokens[0], tokens[0] + "\n<!-- <dictionary></dictionary> -->\n", "<!DOCTYPE dictionary>"} {
		if !yield("no dictionary", without) {
			return false
		}
	}

	with := func(i int, token string) string {
		changed := append([]string{}, tokens...)
		changed[i] = token

		return strings.Join(changed, "")
	}

	for i, token := range tokens[1:] {
		i++

		name, rest, _ := strings.Cut(strings.Trim(token, "<>/"), " ")
		isStart := strings.HasPrefix(token, "<") && !strings.HasPrefix(token, "</")
		isEnd := strings.HasPrefix(token, "</")

		if isStart {
			// required attributes
			for _, attr := range []string{"parent", "id", "rev", "t", "v"} {
				before, after, ok := strings.Cut(" "+rest, " "+attr+`="`)
				if !ok || name == "dictionary" {
					continue
				}

				_, after, _ = strings.Cut(after, `"`)
				if !yield("no attribute "+attr+" in "+name, with(i, "<"+name+before+after+">")) {
					return false
				}

				if !yield("an attribute instead of "+attr+" in "+name, with(i, strings.Replace(token, " "+attr+"=", " x"+attr+"=", 1))) {
					return false
				}

				if attr == "id" || attr == "rev" {
					for _, value := range []string{"", "x", "1.5", "1 2", "0x1"} {
						if !yield(attr+" "+value, with(i, "<"+name+before+" "+attr+`="`+value+`"`+after+">")) {
							return false
						}
					}
				}
			}

			if name == "dictionary" {
				for _, bad := range []string{`<dictionary version="x" revision="7">`, `<dictionary version="0.92" revision="y">`} {
					if !yield(bad, with(i, bad)) {
						return false
					}
				}
			}

			if name == "f" {
				if !yield("an empty form", with(i, `<f t="">`)) {
					return false
				}
			}

			if name == "g" {
				for _, unknown := range []string{"ZZZZ", "aaaa", "AAA", ""} {
					if !yield("unknown grammeme", with(i, `<g v="`+unknown+`">`)) {
						return false
					}
				}
			}

			// the element renamed
			depth := 0

			for j := i; j < len(tokens); j++ {
				other, _, _ := strings.Cut(strings.Trim(tokens[j], "<>/"), " ")
				if other != name || !strings.HasPrefix(tokens[j], "<") {
					continue
				}

				if strings.HasPrefix(tokens[j], "</") {
					depth--
				} else {
					depth++
				}

				if depth == 0 {
					for _, other := range []string{"zzz", name + "x", strings.ToUpper(name), "dictionary", "g"} {
						if other == name {
							continue
						}

						changed := append([]string{}, tokens...)
						changed[i] = strings.Replace(token, name, other, 1)
						changed[j] = "</" + other + ">"

						if !yield("element "+name+" named "+other, strings.Join(changed, "")) {
							return false
						}
					}

					break
				}
			}

			// markup broken
			for _, bad := range []string{token[:len(token)-1], token[1:] + "<", strings.Replace(token, `"`, "", 1), strings.Replace(token, ">", " b=>", 1), strings.Replace(token, ">", ` b="&">`, 1), strings.Replace(token, ">", ` b="<">`, 1)} {
				if bad != token && !yield("broken markup", with(i, bad)) {
					return false
				}
			}
		}

		if isEnd {
			for _, bad := range []string{"", token + token, "</zzz>", strings.TrimSuffix(token, ">")} {
				if bad == token+token && i == len(tokens)-1 {
					continue // nothing after the root element matters
				}

				if !yield("wrong end of element", with(i, bad)) {
					return false
				}
			}
		}

		// elements where they do not belong
		extras := []string{"<zzz/>", "<zzz></zzz>", "&zzz;", "\x00", "\xff"}

		for _, known := range []struct{ element, belongs string }{
			{`<dictionary version="0.92" revision="7"></dictionary>`, ""}, {`<grammemes></grammemes>`, "dictionary"},
			{`<grammeme parent=""><name>AAAA</name></grammeme>`, "grammemes"}, {`<name></name>`, "grammeme"}, {`<alias></alias>`, "grammeme"},
			{`<lemmata></lemmata>`, "dictionary"}, {`<lemma id="9" rev="9"><l t="x"></l></lemma>`, "lemmata"},
			{`<l t="x"></l>`, "lemma"}, {`<f t="x"></f>`, "lemma"}, {`<g v="AAAA"></g>`, "l f"},
			{`<restrictions></restrictions>`, "dictionary"}, {`<link_types></link_types>`, "dictionary"}, {`<links></links>`, "dictionary"},
			{`<link id="1" from="1" to="1" type="1"></link>`, "links"}, {`<type id="1"></type>`, "link_types"},
		} {
			if parent := parentAt(tokens, i); parent != "" && !strings.Contains(" "+known.belongs+" ", " "+parent+" ") {
				extras = append(extras, known.element)
			}
		}

		for _, extra := range extras {
			if i == len(tokens)-1 {
				continue
			}

			if !yield(fmt.Sprintf("%q after %s", extra, token), with(i, token+extra)) {
				return false
			}
		}
	}

	return true
}

func checkImport(c *mc.C) {
	c.Rule("Every document of the grammars is imported by the real loader on a simulated file system, loaded again and compared with an independent reading of the document (all nodes, tag sets, tags in order, word count); every defective document must be refused and leave the previous compiled index alone. evaluations: documents.")
	c.Assume("libxml is a stand-in driving the parser with tokens of encoding/xml. Grammeme names are given without whitespace around, a grammeme declared twice has the same parent, a form does not name a grammeme twice.")

	mc.Family(c, "lemmata", "all documents of up to two lemmas of up to two forms", func(yield func([]lemma) bool) {
		words := []string{"а", "аб"}
		if !c.Quick() {
			words = []string{"а", "аб", "б"}
		}

		all := lemmas(words)
		if !yield(nil) {
			return
		}

		for _, l := range all {
			if !yield([]lemma{l}) {
				return
			}
		}

		second := all
		if c.Quick() {
			second = nil
			for i, l := range all {
				if len(l.Forms) == 1 || i%7 == 0 {
					second = append(second, l)
				}
			}
		}

		for _, l := range all {
			for _, m := range second {
				if !yield([]lemma{l, m}) {
					return
				}
			}
		}
	}, func(x *mc.X, list []lemma) error { return checkDocument(x, dict{abcd, list}.text(), 0) })

	mc.Family(c, "grammemes", "all ordered lists of up to 4 grammemes with every parent, repeated ones too", func(yield func([]gram) bool) {
		names := []string{"AAAA", "BBBB", "CCCC", "DDDD"}
		parents := []string{"", "AAAA", "BBBB", "CCCC", "DDDD", "EEEE"}

		var grow func(list []gram) bool

		grow = func(list []gram) bool {
			if !yield(append([]gram{}, list...)) {
				return false
			}

			if len(list) == c.Pick(3, 4) {
				return true
			}

			for _, name := range names {
				declared := ""

				for _, g := range list {
					if g.Name == name {
						declared = "=" + g.Parent
					}
				}

				for _, parent := range parents {
					if declared != "" && declared != "="+parent {
						continue
					}

					if !grow(append(append([]gram{}, list...), gram{name, parent})) {
						return false
					}
				}
			}

			return true
		}

		grow(nil)
	}, func(x *mc.X, list []gram) error {
		d := dict{Grams: list}

		for i, g := range list {
			d.Lemmas = append(d.Lemmas, lemma{nil, []form{{strings.Repeat("a", i+1), []string{g.Name}}}})
		}

		return checkDocument(x, d.text(), 0)
	})

	mc.Family(c, "decorations", "every decoration, and every pair, between all tokens", func(yield func(decorated) bool) {
		for doc, d := range decorationDocs() {
			tokens := d.tokens()

			for i := range tokens {
				for _, with := range decorations {
					if !allowed(tokens, i, with) {
						continue
					}

					for _, piece := range []int{0, 1, 7} {
						if !yield(decorated{doc, []int{i}, []string{with}, piece}) {
							return
						}
					}

					for j := i; j < len(tokens); j++ {
						for k, other := range decorations {
							if c.Quick() && (doc == 0 || (i+j+k)%5 != 0) || !allowed(tokens, j, other) {
								continue
							}

							if !yield(decorated{doc, []int{i, j}, []string{with, other}, 0}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, d decorated) error { return checkDocument(x, d.text(), d.Piece) })

	mc.Family(c, "names in pieces", "names of four bytes, and of others to refuse, split by comments, instructions, sections and references at one and two places", func(yield func([]string) bool) {
		between := []string{"<!-- c -->", "<?pi x?>", "<![CDATA[]]>"}

		for _, name := range []string{"ANim", "1per", "a<b&", "яя", "A", "ABCDE", "ABCDEFGH", "имя"} {
			runes := []rune(name)
			escape := func(from, to int) string {
				return strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(string(runes[from:to]))
			}

			for i := 0; i <= len(runes); i++ {
				if i < len(runes) {
					for _, way := range []string{fmt.Sprintf("&#%d;", runes[i]), fmt.Sprintf("&#x%X;", runes[i]), "<![CDATA[" + string(runes[i:i+1]) + "]]>"} {
						if !yield([]string{name, escape(0, i) + way + escape(i+1, len(runes))}) {
							return
						}
					}
				}

				for _, with := range between {
					for j := i; j <= len(runes); j++ {
						for _, other := range append([]string{""}, between...) {
							if !yield([]string{name, escape(0, i) + with + escape(i, j) + other + escape(j, len(runes))}) {
								return
							}
						}
					}
				}
			}
		}
	}, func(x *mc.X, split []string) error {
		d := dict{Grams: []gram{{"#", ""}, {"ZZZZ", "#"}}}
		d.Lemmas = []lemma{{[]string{"#"}, []form{{"аб", []string{"ZZZZ"}}}}, {nil, []form{{"а", []string{"#"}}}}}
		text := strings.ReplaceAll(d.text(), "<name>#</name>", "<name>"+split[1]+"</name>")

		text = strings.ReplaceAll(text, `"#"`, `"`+strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(split[0])+`"`)

		if len(split[0]) != 4 {
			if len(split[0]) > 4 { // the name is not that of its beginning
				short := strings.ReplaceAll(text, `"`+split[0]+`"`, `"`+split[0][:4]+`"`)
				if err := refused(x, short, "a grammeme name of more than four bytes", 0); err != nil {
					return err
				}
			}

			return refused(x, text, "a grammeme name of other than four bytes", 0)
		}

		return checkDocument(x, text, 0)
	})

	sections := []string{
		`<restrictions><restr type="maybe" auto="0"><left type="lemma">NOUN</left><right type="form">AAAA</right></restr></restrictions>`,
		`<link_types><type id="1">ADJF-ADJS</type></link_types>`,
		`<links><link id="1" from="5" to="6" type="1"/><link id="2"/></links>`,
		`<restrictions/>`, `<link_types></link_types>`, "<links>\n</links>",
	}

	mc.Family(c, "sections", "all selections and orders of the other sections around grammemes and lemmata", func(yield func([][]int) bool) {
		var lists [][]int

		lists = append(lists, nil)
		for i := range sections {
			lists = append(lists, []int{i})

			for j := range sections {
				if i != j {
					lists = append(lists, []int{i, j})
				}
			}
		}

		for _, a := range lists {
			for _, b := range lists {
				for _, d := range lists {
					if len(a)+len(b)+len(d) > c.Pick(3, 4) {
						continue
					}

					if !yield([][]int{a, b, d}) {
						return
					}
				}
			}
		}
	}, func(x *mc.X, where [][]int) error {
		place := func(list []int) (res string) {
			for _, i := range list {
				res += sections[i]
			}

			return res
		}
		text := baseDoc().text()
		text = strings.Replace(text, "<grammemes>", place(where[0])+"<grammemes>", 1)
		text = strings.Replace(text, "<lemmata>", place(where[1])+"<lemmata>", 1)
		text = strings.Replace(text, "</lemmata>", "</lemmata>"+place(where[2]), 1)

		return checkDocument(x, text, 0)
	})

	mc.Family(c, "spelling", "forms of all kinds of characters, attributes in every order and spelling", func(yield func(string) bool) {
		forms := []string{
			"ёж", "Ёж", "ё", "a b", " a", "a ", "по-русски", "д'артаньян", "a&b", "<", "\"", "42", "😀", "a😀b", "￼", "\u00ad", "ﷺ",
			strings.Repeat("длинное", 9), "'", "%s", "%d%n", "----", "    ", "\u2028",
		}
		for _, f := range forms {
			for _, g := range forms {
				d := dict{abcd, []lemma{{[]string{"AAAA"}, []form{{f, nil}, {g, []string{"BBBB"}}}}, {nil, []form{{f + g, []string{"CCCC"}}}}}}
				if !yield(d.text()) {
					return
				}
			}
		}

		base := baseDoc().text()

		for _, r := range [][2]string{
			{`<lemma id="1" rev="0">`, `<lemma rev="0" id="1">`}, {`<lemma id="1" rev="0">`, `<lemma id='1'  rev = "0" >`},
			{`<lemma id="1" rev="0">`, `<lemma other="z" id="-1" rev="+0">`}, {`<f t="аб">`, `<f x="1" t="аб" y="2">`},
			{`<f t="аб">`, `<f t='&#1072;&#x431;'>`}, {`<g v="BBBB"></g>`, `<g v="BBBB"/>`}, {`<g v="BBBB"></g>`, `<g v = 'BBBB' />`},
			{`<g v="AAAA"></g>`, `<g v="&#65;AAA"> </g>`}, {`<grammeme parent="AAAA">`, `<grammeme other="BBBB" parent="AAAA">`},
			{`<name>BBBB</name>`, `<name>BB<![CDATA[BB]]></name>`}, {`<name>BBBB</name>`, `<name><![CDATA[BBBB]]></name>`},
			{`<name>BBBB</name>`, `<name>&#66;B&#66;B</name>`}, {`<alias></alias>`, `<alias>сущ</alias>`}, {`<alias></alias>`, ``},
			{`<description></description>`, `<description>a &lt;b&gt; <!-- c --> d</description>`}, {`<description></description>`, ``},
			{`<dictionary version="0.92" revision="7">`, `<dictionary>`}, {`<dictionary version="0.92" revision="7">`, `<dictionary revision="417150" version="0.92" xmlns="urn:x">`},
			{`<?xml version="1.0" encoding="utf-8"?>`, ``}, {`<?xml version="1.0" encoding="utf-8"?>`, `<?xml version="1.0"?><!DOCTYPE dictionary>`},
			{`<f t="b">`, `<f t="b">text`}, {`<lemmata>`, `<lemmata>text`}, {`<l t="x">`, `<l t="">`},
		} {
			if !strings.Contains(base, r[0]) {
				panic("no " + r[0])
			}

			if !yield(strings.Replace(base, r[0], r[1], 1)) || !yield(strings.ReplaceAll(base, r[0], r[1])) {
				return
			}
		}
	}, func(x *mc.X, text string) error {
		for _, piece := range []int{0, 1, 3} {
			if err := checkDocument(x, text, piece); err != nil {
				return err
			}
		}

		return nil
	})

	type numbered struct {
		IDs   []int    `json:"ids"`
		Revs  []int    `json:"revs"`
		What  []int    `json:"what"`
		Base  []string `json:"base"`
		Links []int    `json:"links,omitempty"`
	}

	mc.Family(c, "numbers", "all lists of up to 3 lemmas with equal and different ids, revisions, base forms and contents, links between them", func(yield func(numbered) bool) {
		ids, revs, bases := []int{1, 2, 0, -1, 2147483648}, []int{0, 1, -5, 2147483648}, []string{"а", "аб", "zz", ""}
		stop := false

		put := func(n numbered) bool {
			stop = !yield(n)
			return !stop
		}

		for n := 1; n <= 3 && !stop; n++ {
			mc.Each(len(ids), n, func(a []int) bool {
				mc.Each(4, n, func(what []int) bool {
					for extra := 0; extra < 9; extra++ {
						if c.Quick() && n == 3 && extra != what[0]*what[1]%9 {
							continue
						}

						one := numbered{}

						for i := range a {
							one.IDs = append(one.IDs, ids[a[i]])
							one.What = append(one.What, what[i])
							one.Revs = append(one.Revs, revs[extra%3*i%4])
							one.Base = append(one.Base, bases[(extra/3*i+extra)%4])
						}

						if extra%2 == 1 {
							for i := range a {
								one.Links = append(one.Links, one.IDs[i], one.IDs[(i+extra)%n], extra)
							}
						}

						if !put(one) {
							return false
						}
					}

					return true
				})

				return !stop
			})
		}

		mc.Each(len(revs), 2, func(r []int) bool {
			mc.Each(len(bases), 2, func(b []int) bool {
				mc.Each(4, 2, func(what []int) bool {
					if stop {
						return false
					}

					for id := 1; id <= 2; id++ {
						for kind := 0; kind <= 27; kind++ {
							if c.Quick() && kind > 2 && kind != 21 {
								continue
							}

							if !put(numbered{[]int{1, id}, []int{revs[r[0]], revs[r[1]]}, append([]int{}, what...), []string{bases[b[0]], bases[b[1]]}, []int{1, id, kind}}) {
								return false
							}
						}
					}

					return true
				})

				return !stop
			})

			return !stop
		})
	}, func(x *mc.X, n numbered) error {
		var b strings.Builder

		contents := []string{
			`<f t="а"><g v="BBBB"/></f>`, `<f t="аб"></f><f t="а"><g v="CCCC"/></f>`, ``, `<f t="zz"><g v="DDDD"/></f><f t="аб"><g v="BBBB"/></f><f t="zz"><g v="BBBB"/></f>`,
		}

		text := dict{Grams: abcd}.text()

		for i, id := range n.IDs {
			fmt.Fprintf(&b, `<lemma id="%d" rev="%d"><l t="%s">`, id, n.Revs[i], n.Base[i])

			if n.What[i] != 3 {
				b.WriteString(`<g v="AAAA"/>`)
			}

			b.WriteString("</l>" + contents[n.What[i]] + "</lemma>")
		}

		b.WriteString("</lemmata>")

		if len(n.Links) > 0 {
			b.WriteString("<links>")

			for i := 0; i < len(n.Links); i += 3 {
				fmt.Fprintf(&b, `<link id="%d" from="%d" to="%d" type="%d"/>`, i/3+1, n.Links[i], n.Links[i+1], n.Links[i+2])
			}

			b.WriteString("</links>")
		}

		return checkDocument(x, strings.Replace(text, "</lemmata>", b.String(), 1), 0)
	})

	type size struct {
		What string `json:"what"`
		N    int    `json:"n"`
	}

	mc.Family(c, "sizes", "numbers of lemmas, forms, tags, grammemes and letters", func(yield func(size) bool) {
		for _, what := range []string{"lemmas", "forms", "tags", "grammemes", "letters", "sets"} {
			for n := 1; n <= c.Pick(90, 250); n++ {
				if !yield(size{what, n}) {
					return
				}
			}

			for _, n := range []int{200, 240, 253, 254, 255, 256, 300, 1000, 4000} {
				if n > 255 && what != "lemmas" && what != "forms" && what != "letters" {
					continue
				}

				if !yield(size{what, n}) {
					return
				}
			}
		}
	}, func(x *mc.X, s size) error {
		many := func(n int) (res []gram) {
			for i := 0; i < n; i++ {
				parent := ""
				if i > 0 {
					parent = res[i/2].Name
				}

				res = append(res, gram{fmt.Sprintf("G%03d", i), parent})
			}

			return res
		}
		d := dict{Grams: many(4)}

		switch s.What {
		case "lemmas":
			for i := 0; i < s.N; i++ {
				d.Lemmas = append(d.Lemmas, lemma{[]string{d.Grams[i%4].Name}, []form{{fmt.Sprintf("%bа", i), []string{d.Grams[(i+1)%4].Name}}}})
			}
		case "forms":
			l := lemma{[]string{"G000"}, nil}
			for i := 0; i < s.N; i++ {
				l.Forms = append(l.Forms, form{fmt.Sprint("ф", i), []string{d.Grams[1+i%3].Name}})
			}

			d.Lemmas = []lemma{l, l}
		case "tags":
			d.Grams = many(s.N)
			l := lemma{Forms: []form{{Text: "слово"}}}

			for i, g := range d.Grams {
				if i%2 == 0 {
					l.Tags = append(l.Tags, g.Name)
				} else {
					l.Forms[0].Tags = append([]string{g.Name}, l.Forms[0].Tags...)
				}
			}

			d.Lemmas = []lemma{l}
		case "grammemes":
			d.Grams = many(s.N)
			for i, g := range d.Grams {
				d.Lemmas = append(d.Lemmas, lemma{[]string{g.Name}, []form{{fmt.Sprint("г", i/2), nil}}})
			}
		case "letters":
			d.Lemmas = []lemma{{[]string{"G001"}, []form{{strings.Repeat("ы", s.N), nil}, {strings.Repeat("ы", s.N/2) + "a", nil}}}}
		case "sets":
			d.Grams = many(16)
			for i := 1; i <= s.N; i++ {
				f := form{Text: fmt.Sprint("м", i%3)}

				for bit := range d.Grams {
					if i&(1<<bit) != 0 {
						f.Tags = append(f.Tags, d.Grams[bit].Name)
					}
				}

				d.Lemmas = append(d.Lemmas, lemma{Forms: []form{f}})
			}
		}

		return checkDocument(x, d.text(), 0)
	})

	mc.Family(c, "defects", "every defect at every place of a document", func(yield func(defect) bool) {
		docs := append(decorationDocs()[:2:2], dict{Lemmas: []lemma{{nil, []form{{"аб", nil}, {"а", nil}}}, {nil, []form{{"б", nil}}}}})
		for _, d := range docs {
			if !defects(d, func(name, text string) bool {
				for _, piece := range []int{0, 1, 5} {
					if !yield(defect{name, []byte(text), piece}) {
						return false
					}
				}

				return true
			}) {
				return
			}
		}
	}, func(x *mc.X, d defect) error { return refused(x, string(d.Text), d.Name, d.Piece) })

	type long struct {
		Lemma int   `json:"lemma"`
		Forms []int `json:"forms"`
		Pace  int   `json:"pace,omitempty"`
	}

	mc.Family(c, "long", "lemmas of up to 9 tags with up to three forms of up to 3 tags each, time passing slowly or fast", func(yield func(long) bool) {
		for n := 0; n <= 9; n++ {
			for forms := 1; forms <= 3; forms++ {
				stop := false

				mc.Each(4, forms, func(counts []int) bool {
					for _, pace := range []int{0, 1, 4000, 11000, 86400000} {
						if pace != 0 && c.Quick() && counts[0] != 1 {
							continue
						}

						if !yield(long{n, append([]int{}, counts...), pace}) {
							stop = true
							return false
						}
					}

					return true
				})

				if stop {
					return
				}
			}
		}
	}, func(x *mc.X, l long) error {
		d := dict{}
		for i := 0; i < 20; i++ {
			d.Grams = append(d.Grams, gram{fmt.Sprintf("T%03d", i), ""})
		}

		one := lemma{}
		for i := 0; i < l.Lemma; i++ {
			one.Tags = append(one.Tags, d.Grams[i].Name)
		}

		for i, n := range l.Forms {
			f := form{Text: []string{"а", "аб", "а"}[i]}
			for k := 0; k < n; k++ {
				f.Tags = append(f.Tags, d.Grams[10+3*i+k].Name)
			}

			one.Forms = append(one.Forms, f)
		}

		d.Lemmas = []lemma{one, {[]string{"T019"}, one.Forms}}

		return checkPaced(x, d.text(), 0, time.Duration(l.Pace)*time.Millisecond)
	})

	var (
		documents = []string{baseDoc().text(), decorationDocs()[1].text(), decorationDocs()[2].text(), dict{}.text()}
		broken    []string
	)

	for i, d := range decorationDocs() {
		tokens := d.tokens()
		broken = append(broken, strings.Join(tokens[:len(tokens)-2-i], ""), strings.Join(tokens[:len(tokens)-5], "")+`<f t="zzz"><g v="ZZZZ"/></f>`, "")
	}

	mc.Family(c, "again", "all sequences of imports in one process, by one loader or several, defective documents among them", func(yield func([]int) bool) {
		for n := 2; n <= c.Pick(3, 4); n++ {
			stop := false

			mc.Each(len(documents)+len(broken), n, func(list []int) bool {
				for same := 0; same < 2; same++ {
					if !yield(append([]int{same}, list...)) {
						stop = true
						return false
					}
				}

				return true
			})

			if stop {
				return
			}
		}
	}, func(x *mc.X, list []int) error {
		x.Evals(1, 1)

		w := newWorld()
		w.SetDir(dataDir)

		var problem error

		o := process(w, nil, func(l *opencorpora.Loader) error {
			present := ""

			for step, i := range list[1:] {
				text := ""
				if i < len(documents) {
					text = documents[i]
				} else {
					text = broken[i-len(documents)]
				}

				w.SetFile(unpackedFile, []byte(text), w.Clock)

				if list[0] == 0 {
					l = opencorpora.NewLoader("")
				}

				err := l.ParseUpdate(unpackedFile, compiledFile)

				switch {
				case i < len(documents) && err != nil:
					problem = mc.Failf("import %d of %v fails: %v", step+1, list, err)
					return nil
				case i >= len(documents) && err == nil:
					problem = mc.Failf("import %d of %v of a defective document succeeds:\n%s", step+1, list, text)
					return nil
				case i < len(documents):
					present = expectedOf(text)
				}

				ix, err := l.LoadIndex()

				switch {
				case present == "" && err == nil:
					problem = mc.Failf("an index is loaded though none was imported yet (%v)", list)
				case present != "" && err != nil:
					problem = mc.Failf("after import %d of %v: loading: %v", step+1, list, err)
				case present != "" && describe(ix) != present:
					problem = mc.Failf("after import %d of %v the index has\n%s\ninstead of\n%s", step+1, list, describe(ix), present)
				}

				if problem != nil {
					return nil
				}
			}

			return nil
		})
		if o.panic != "" {
			return mc.Failf("imports %v panic: %s", list, o.panic)
		}

		return problem
	})
}
