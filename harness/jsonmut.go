package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// A JSON document as a tree that keeps the order of members, can hold
// members twice and can hold text that isn't JSON at all.

type jraw string // written as it is
type jobj struct {
	keys []string
	vals []interface{}
}
type jarr struct{ vals []interface{} }

func parseJSON(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := parseValue(d)
	if err != nil {
		panic(fmt.Errorf("harness: %v in %.100s", err, b))
	}
	return v
}

func parseValue(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		if x == '{' {
			o := &jobj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := parseValue(d)
				if err != nil {
					return nil, err
				}
				o.keys, o.vals = append(o.keys, k.(string)), append(o.vals, v)
			}
			d.Token()
			return o, nil
		}
		a := &jarr{}
		for d.More() {
			v, err := parseValue(d)
			if err != nil {
				return nil, err
			}
			a.vals = append(a.vals, v)
		}
		d.Token()
		return a, nil
	default:
		b, err := json.Marshal(t)
		return jraw(b), err
	}
}

func writeJSON(v interface{}) []byte {
	var w bytes.Buffer
	putJSON(&w, v)
	return w.Bytes()
}

func putJSON(w *bytes.Buffer, v interface{}) {
	switch x := v.(type) {
	case *jobj:
		w.WriteByte('{')
		for i, k := range x.keys {
			if i > 0 {
				w.WriteByte(',')
			}
			b, _ := json.Marshal(k)
			w.Write(b)
			w.WriteByte(':')
			putJSON(w, x.vals[i])
		}
		w.WriteByte('}')
	case *jarr:
		w.WriteByte('[')
		for i, e := range x.vals {
			if i > 0 {
				w.WriteByte(',')
			}
			putJSON(w, e)
		}
		w.WriteByte(']')
	case jraw:
		w.WriteString(string(x))
	}
}

func cloneJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case *jobj:
		o := &jobj{keys: append([]string{}, x.keys...)}
		for _, e := range x.vals {
			o.vals = append(o.vals, cloneJSON(e))
		}
		return o
	case *jarr:
		o := &jarr{}
		for _, e := range x.vals {
			o.vals = append(o.vals, cloneJSON(e))
		}
		return o
	}
	return v
}

// jplace is a place in a document: member or element i of parent.
type jplace struct {
	parent interface{}
	i      int
	path   string
}

func (p jplace) get() interface{} {
	switch x := p.parent.(type) {
	case *jobj:
		return x.vals[p.i]
	case *jarr:
		return x.vals[p.i]
	}
	return nil
}

func (p jplace) set(v interface{}) {
	switch x := p.parent.(type) {
	case *jobj:
		x.vals[p.i] = v
	case *jarr:
		x.vals[p.i] = v
	}
}

func (p jplace) remove() {
	switch x := p.parent.(type) {
	case *jobj:
		x.keys = append(append([]string{}, x.keys[:p.i]...), x.keys[p.i+1:]...)
		x.vals = append(append([]interface{}{}, x.vals[:p.i]...), x.vals[p.i+1:]...)
	case *jarr:
		x.vals = append(append([]interface{}{}, x.vals[:p.i]...), x.vals[p.i+1:]...)
	}
}

func places(v interface{}, path string, out []jplace) []jplace {
	switch x := v.(type) {
	case *jobj:
		for i := range x.vals {
			p := path + "." + x.keys[i]
			out = append(out, jplace{x, i, p})
			out = places(x.vals[i], p, out)
		}
	case *jarr:
		for i := range x.vals {
			if len(x.vals) > 8 && i > 2 && i < len(x.vals)-2 && isBytes(x) {
				continue // the bytes of one hash
			}
			out = append(out, jplace{x, i, path + "[]"})
			out = places(x.vals[i], path+"[]", out)
		}
	}
	return out
}

func isBytes(a *jarr) bool { _, ok := a.vals[0].(jraw); return ok }

var oddNumbers = []string{"0", "1", "2", "-1", "255", "256", "1.5", "1e3", "1e400", "-0", "4294967295", "4294967296", "4294967297",
	"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "123456789012345678901234567890",
	"257", "1000", "100", "101", "102", "103", "104", "105", "106", "107", "200", "206", "208", "300", "999999"}

func nest(n int) jraw {
	return jraw(strings.Repeat("[", n) + strings.Repeat("]", n))
}

// mutateJSON alters one place of the document and says how.
func mutateJSON(r *rand.Rand, doc interface{}, others []interface{}) (interface{}, string) {
	ps := places(doc, "", nil)
	if len(ps) == 0 {
		return jraw("null"), "null document"
	}
	p := ps[r.Intn(len(ps))]
	if r.Intn(2) == 0 { // prefer places near the top: there are few of them
		for k := 0; k < 3; k++ {
			if q := ps[r.Intn(len(ps))]; len(q.path) < len(p.path) {
				p = q
			}
		}
	}
	what := ""
	switch k := r.Intn(24); k {
	case 0, 1:
		p.set(jraw("null"))
		what = "null"
	case 2, 3:
		p.remove()
		what = "removed"
	case 4:
		p.set(&jobj{})
		what = "{}"
	case 5:
		p.set(&jarr{})
		what = "[]"
	case 6:
		p.set(jraw(`""`))
		what = "empty string"
	case 7, 8:
		n := oddNumbers[r.Intn(len(oddNumbers))]
		p.set(jraw(n))
		what = "number " + n
	case 9:
		p.set(jraw([]string{"true", "false", "nul", "NaN", "+1", "01", "'a'", "\"\x00\"", "\"\xff\xfe\"", `"\ud800"`, "", ",", `"`, "\u2028"}[r.Intn(14)]))
		what = "odd token"
	case 10:
		p.set(nest([]int{2, 100, 9990, 10001, 20000}[r.Intn(5)]))
		what = "deep nesting"
	case 11:
		p.set(jraw(`"` + base64.StdEncoding.EncodeToString(randBytes(r, []int{1, 16, 31, 33, 64, 96, 4096, 200000}[r.Intn(8)])) + `"`))
		what = "other bytes"
	case 12, 13: // change the bytes or the digits that are there
		s, ok := p.get().(jraw)
		if !ok {
			return mutateJSON(r, doc, others)
		}
		if strings.HasPrefix(string(s), `"`) {
			var str string
			json.Unmarshal([]byte(s), &str)
			if b, err := base64.StdEncoding.DecodeString(str); err == nil {
				switch r.Intn(6) {
				case 0:
					if len(b) > 0 {
						b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
					}
				case 1:
					b = b[:r.Intn(len(b)+1)]
				case 2:
					b = append(b, randBytes(r, 1+r.Intn(40))...)
				case 3:
					b = append(b, 0)
				case 4:
					if len(b) > 0 {
						b = b[1:]
					}
				default:
					p.set(jraw(strconv.Quote(str[:len(str)/2] + "*" + str[len(str)/2:])))
					return doc, "bad base64 at " + p.path
				}
				p.set(jraw(`"` + base64.StdEncoding.EncodeToString(b) + `"`))
			} else {
				p.set(jraw(strconv.QuoteToASCII(str + "x")))
			}
			what = "bytes changed"
		} else {
			n, _ := strconv.ParseInt(string(s), 10, 64)
			p.set(jraw(strconv.FormatInt(n+int64(r.Intn(5)-2), 10)))
			what = "digits changed"
		}
	case 14:
		p.set(&jarr{vals: []interface{}{p.get()}})
		what = "wrapped in an array"
	case 15:
		p.set(&jobj{keys: []string{"Value", "STR"}, vals: []interface{}{p.get(), p.get()}})
		what = "wrapped in an object"
	case 16: // another place's content
		q := ps[r.Intn(len(ps))]
		p.set(cloneJSON(q.get()))
		what = "content of " + q.path
	case 17: // the same place of another document
		if len(others) > 0 {
			o := places(others[r.Intn(len(others))], "", nil)
			for _, q := range o {
				if q.path == p.path {
					p.set(cloneJSON(q.get()))
					what = "content of another answer"
					if r.Intn(3) > 0 {
						break
					}
				}
			}
		}
		if what == "" {
			return mutateJSON(r, doc, others)
		}
	case 18: // a member twice
		o, ok := p.parent.(*jobj)
		if !ok {
			return mutateJSON(r, doc, others)
		}
		v := cloneJSON(o.vals[p.i])
		if r.Intn(2) == 0 {
			v = jraw([]string{"null", "{}", "[]", "0", `""`}[r.Intn(5)])
		}
		key := o.keys[p.i]
		if r.Intn(2) == 0 {
			key = strings.ToUpper(key)
		}
		if r.Intn(2) == 0 {
			o.keys, o.vals = append([]string{key}, o.keys...), append([]interface{}{v}, o.vals...)
		} else {
			o.keys, o.vals = append(o.keys, key), append(o.vals, v)
		}
		what = "member twice"
	case 19:
		o, ok := p.parent.(*jobj)
		if !ok {
			return mutateJSON(r, doc, others)
		}
		o.keys[p.i] = []string{strings.ToLower(o.keys[p.i]), o.keys[p.i] + "x", "", "Epoch", "Error", "SignedTreeRoot", "proofType", "tree", "Ad"}[r.Intn(9)]
		what = "member renamed"
	case 20: // an array changed
		a, ok := p.get().(*jarr)
		if !ok || len(a.vals) == 0 {
			return mutateJSON(r, doc, others)
		}
		switch r.Intn(6) {
		case 0:
			a.vals = append(a.vals, cloneJSON(a.vals[r.Intn(len(a.vals))]))
			what = "element repeated"
		case 1:
			a.vals = a.vals[:len(a.vals)-1]
			what = "last element removed"
		case 2:
			a.vals = append(a.vals, jraw("null"))
			what = "null appended"
		case 3:
			a.vals = append([]interface{}{jraw("null")}, a.vals...)
			what = "null prepended"
		case 4:
			r.Shuffle(len(a.vals), func(i, j int) { a.vals[i], a.vals[j] = a.vals[j], a.vals[i] })
			what = "elements shuffled"
		case 5:
			n := []int{1, 255, 256, 300, 2000}[r.Intn(5)]
			for len(a.vals) < n {
				a.vals = append(a.vals, cloneJSON(a.vals[0]))
			}
			what = "many elements"
		}
	case 21:
		o, ok := p.parent.(*jobj)
		if !ok {
			return mutateJSON(r, doc, others)
		}
		o.keys, o.vals = append(o.keys, "Extra"), append(o.vals, nest(3))
		what = "unknown member"
	case 22: // the leaf and its lookup index made equal or different
		what = "leaf and lookup index"
		var lookup, leaf []jplace
		for _, q := range ps {
			if strings.HasSuffix(q.path, ".LookupIndex") {
				lookup = append(lookup, q)
			}
			if strings.HasSuffix(q.path, ".Leaf.Index") {
				leaf = append(leaf, q)
			}
		}
		if len(lookup) == 0 || len(leaf) == 0 {
			return mutateJSON(r, doc, others)
		}
		p = lookup[0]
		if r.Intn(2) == 0 {
			leaf[0].set(cloneJSON(p.get()))
		} else {
			p.set(cloneJSON(leaf[0].get()))
		}
	default:
		o, ok := p.get().(*jobj)
		if !ok || len(o.vals) == 0 {
			return mutateJSON(r, doc, others)
		}
		// everything below it is null
		for i := range o.vals {
			o.vals[i] = jraw("null")
		}
		what = "all members null"
	}
	return doc, what + " at " + p.path
}

// mutateBytes alters the text itself.
func mutateBytes(r *rand.Rand, b []byte) ([]byte, string) {
	b = append([]byte{}, b...)
	pos := func() int { return r.Intn(len(b) + 1) }
	switch r.Intn(10) {
	case 0:
		return b[:pos()], "truncated text"
	case 1:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b, "bit flipped"
	case 2:
		i, j := pos(), pos()
		if i > j {
			i, j = j, i
		}
		return append(b[:i:i], b[j:]...), "range removed"
	case 3:
		i, j := pos(), pos()
		if i > j {
			i, j = j, i
		}
		return append(b[:j:j], b[i:]...), "range repeated"
	case 4:
		i := pos()
		return append(append(b[:i:i], randBytes(r, 1+r.Intn(20))...), b[i:]...), "junk inserted"
	case 5:
		return append(b, b...), "text twice"
	case 6:
		return append(b, []byte([]string{" ", "\n", "x", "}", "{}", "\x00", "null"}[r.Intn(7)])...), "text appended"
	case 7:
		return append([]byte([]string{"\xef\xbb\xbf", " ", "\t\n", "[", "{", "\x00"}[r.Intn(6)]), b...), "text prepended"
	case 8:
		return []byte([]string{"", "null", "[]", "{}", "0", `""`, "true", "{", "[[", `{"Error":0}`, `{"Error":100}`, `{"Error":1000}`, `{"Error":-1}`,
			`{"DirectoryResponse":null}`, `{"Error":100,"DirectoryResponse":null}`, `{"Error":100,"DirectoryResponse":{}}`,
			`{"Error":100,"DirectoryResponse":[]}`, `{"Error":100,"DirectoryResponse":{"AP":[null],"STR":[null]}}`,
			`{"Error":100,"DirectoryResponse":{"AP":[{}],"STR":[{}]}}`, `{"Error":100,"DirectoryResponse":{"STR":[]}}`,
			`{"Error":100,"DirectoryResponse":{"STR":[null]}}`, `{"Error":100,"DirectoryResponse":{"AP":[{"Leaf":{}}],"STR":[{"Policies":{}}]}}`,
			`{"Error":null}`, `{"Error":"100"}`, `{"Error":1e2,"DirectoryResponse":7}`}[r.Intn(25)]), "small document"
	default:
		return randBytes(r, r.Intn(200)), "random bytes"
	}
}
