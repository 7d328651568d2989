package h

import (
	"yunion.io/x/jsonutils"

	"verifharness/sym"
)

// C07: parsing at an offset does not depend on what precedes it.
func C07_offset() {
	n, m := 2, 2
	if sym.Thorough() {
		n, m = 3, 3
	}
	sym.Bound("offset", "every prefix of at most 2 (3 thorough) bytes before every text of at most 2 (3) bytes, or before such bytes inside a document")
	p := sym.StrUpTo("prefix", n)
	s := sym.StrUpTo("s", m)
	switch sym.Choose("in", 4) {
	case 1:
		s = "[" + s + "]"
	case 2:
		s = "{" + s + ":1}"
	case 3:
		s = "\"" + s + "\"x"
	}
	v, end, err := jsonutils.ParseStream(tight(s), 0)
	w, end2, err2 := jsonutils.ParseStream(tight(p+s), len(p))
	sym.Assert((err == nil) == (err2 == nil), "parsing at an offset accepts the same texts")
	if err == nil {
		sym.Assert(end2 == end+len(p), "the end is reported relative to the whole text")
		sym.Assert(v.String() == w.String() && sameKind(v, w), "parsing at an offset gives the same value")
		sym.Observe("value", v.String())
	}
}

func sameKind(v, w jsonutils.JSONObject) bool {
	switch v.(type) {
	case *jsonutils.JSONString:
		_, ok := w.(*jsonutils.JSONString)
		return ok
	case *jsonutils.JSONInt:
		_, ok := w.(*jsonutils.JSONInt)
		return ok
	case *jsonutils.JSONFloat:
		_, ok := w.(*jsonutils.JSONFloat)
		return ok
	case *jsonutils.JSONBool:
		_, ok := w.(*jsonutils.JSONBool)
		return ok
	case *jsonutils.JSONArray:
		_, ok := w.(*jsonutils.JSONArray)
		return ok
	case *jsonutils.JSONDict:
		_, ok := w.(*jsonutils.JSONDict)
		return ok
	}
	return true
}

// C07: exactly one document is consumed, whatever follows it.
func C07_consume() {
	depth, budget, m := 2, 2, 2
	if sym.Thorough() {
		depth, budget, m = 3, 3, 3
	}
	sym.Bound("consume", "every array or object with at most 2 values below the top (3 thorough) followed by at most 2 (3) arbitrary bytes")
	n := anyTree("v", depth, &budget, 1, true)
	s := n.build().String()
	t := sym.StrUpTo("tail", m)
	v, end, err := jsonutils.ParseStream(tight(s+t), 0)
	sym.Assert(err == nil, "the document parses whatever follows it")
	sym.Assert(end == len(s), "exactly the document is consumed")
	sym.Assert(n.same(v), "the value is that of the document")
}

// gap is text without opening brackets.
func gap(name string, n int) string {
	g := sym.StrUpTo(name, n)
	for i := 0; i < len(g); i++ {
		sym.Assume(g[i] != '[' && g[i] != '{')
	}
	return g
}

// C07: streams of documents.
func C07_stream() {
	g := 1
	if sym.Thorough() {
		g = 2
	}
	k := sym.Choose("docs", 4)
	sym.Bound("streams", "up to 3 documents with at most one value each and one byte strings and keys, separated by at most 1 (2 thorough) arbitrary non-bracket bytes")
	s := ""
	var docs []*node
	for i := 0; i < k; i++ {
		s += gap("gap", g)
		b := 1
		if k > 2 && !sym.Thorough() {
			b = 0
		}
		n := anyTree("v", 1, &b, 1, true)
		docs = append(docs, n)
		s += n.build().String()
	}
	s += gap("gap", g)
	l, err := jsonutils.ParseJsonStreams(tight(s))
	sym.Assert(err == nil, "the stream parses")
	sym.Assert(len(l) == len(docs), "the stream yields as many documents as it holds")
	for i, n := range docs {
		sym.Assert(n.same(l[i]), "the documents are recovered in order")
	}
	sym.Observe("stream", s)
}

// C07: long streams of mixed documents.
func C07_long() {
	k := sym.Choose("docs", 14)
	sym.Bound("long streams", "up to 13 documents, compact or pretty, one of them with an arbitrary two-byte string (brackets and quotes included)")
	at := sym.Choose("at", k+1)
	c := sym.From("c", 2, "a]}[{,: \"\\\n\x00\xff")
	s := ""
	var docs []*node
	for i := 0; i < k; i++ {
		n := arr(&node{k: kInt, i: int64(i)})
		if i == at {
			n = arr(str(c), obj1(c, str(c)))
		} else if i%3 == 1 {
			n = obj1("k", arr(obj1("x", &node{k: kNull}), arr()))
		}
		docs = append(docs, n)
		if i%4 == 3 {
			s += n.build().PrettyString()
		} else {
			s += n.build().String()
		}
		s += []string{"", "\n", " , ", "]}\"", "garbage:1"}[i%5]
	}
	l, err := jsonutils.ParseJsonStreams(tight(s))
	sym.Assert(err == nil, "the stream parses")
	sym.Assert(len(l) == len(docs), "the stream yields as many documents as it holds")
	for i, n := range docs {
		sym.Assert(n.same(l[i]), "the documents are recovered in order")
	}
	// the same one by one
	off := 0
	for _, n := range docs {
		for s[off] != '[' && s[off] != '{' {
			off++
		}
		v, end, err := jsonutils.ParseStream(tight(s), off)
		sym.Assert(err == nil && n.same(v), "each document parses at its offset")
		off = end
	}
}
