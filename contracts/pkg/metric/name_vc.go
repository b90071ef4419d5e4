//go:build go1.21

package metric

import (
	"io"
	"strings"

	"github.com/BTBurke/monny/internal/vc"
	"github.com/go-logfmt/logfmt"
)

// A name's metadata map is never nil once it came from NewName.

//vc:contract NewName prop=C31
func cNewName(name string, md map[string]string, k string) {
	old := vc.SnapMap(md)
	r := NewName(name, md)
	vc.Ensures("name", func() bool { return r.name == name && r.md != nil })
	vc.Ensures("metadata", func() bool { return specEntry(r.md, k, old.Has(k), old.Get(k)) })
}

func specEntry(m map[string]string, k string, has bool, v string) bool {
	w, ok := m[k]
	return ok == has && (!ok || w == v)
}

//vc:contract NewNameFrom prop=C31
func cNewNameFrom(n Name, k string) {
	old := vc.SnapMap(n.md)
	vc.Invariant("copied", func(cp metadata, seen vc.Set[string]) bool {
		return specEntry(cp, k, old.Has(k) && seen.Has(k), old.Get(k))
	})
	vc.Invariant("copied", func(cp map[string]string, seen vc.Set[string]) bool {
		return specEntry(cp, k, old.Has(k) && seen.Has(k), old.Get(k))
	})
	r := NewNameFrom(n)
	vc.Ensures("same name", func() bool { return r.name == n.name })
	vc.Ensures("same metadata", func() bool { return specEntry(r.md, k, old.Has(k), old.Get(k)) })
	vc.Ensures("original kept", func() bool { return specEntry(n.md, k, old.Has(k), old.Get(k)) })
	vc.Ensures("not shared", func() bool { return vc.Fresh(r.md) && r.md != nil })
}

//vc:contract (Name).AddMetadata prop=C31
func cAddMetadata(n Name, md map[string]string, k string) {
	vc.Requires(func() bool { return n.md != nil })
	old, add := vc.SnapMap(n.md), vc.SnapMap(md)
	vc.Modifies(n.md)
	vc.Invariant("upserted", func(seen vc.Set[string]) bool {
		return vc.Imp(add.Has(k) && seen.Has(k), specEntry(n.md, k, true, add.Get(k)))
	})
	vc.Invariant("kept", func(seen vc.Set[string]) bool {
		return vc.Imp(!add.Has(k) || !seen.Has(k), specEntry(n.md, k, old.Has(k), old.Get(k)))
	})
	vc.Invariant("added unchanged", func() bool { return specEntry(md, k, add.Has(k), add.Get(k)) || vc.Same(md, n.md) })
	n.AddMetadata(md)
	vc.Ensures("upserted", func() bool { return vc.Imp(add.Has(k), specEntry(n.md, k, true, add.Get(k))) })
	vc.Ensures("others kept", func() bool { return vc.Imp(!add.Has(k), specEntry(n.md, k, old.Has(k), old.Get(k))) })
}

//vc:contract (Name).AddAnnotation prop=C31
func cAddAnnotation(n Name, ann []string, k string) {
	vc.Requires(func() bool { return n.md != nil })
	old := vc.SnapMap(n.md)
	in := func(m int) bool { return vc.Exists(0, m, func(i int) bool { return ann[i] == k }) }
	vc.Modifies(n.md)
	vc.Invariant("annotated", func(i int) bool { return vc.Imp(in(i), specEntry(n.md, k, true, "")) })
	vc.Invariant("kept", func(i int) bool { return vc.Imp(!in(i), specEntry(n.md, k, old.Has(k), old.Get(k))) })
	n.AddAnnotation(ann...)
	vc.Ensures("annotated", func() bool { return vc.Imp(in(len(ann)), specEntry(n.md, k, true, "")) })
	vc.Ensures("others kept", func() bool { return vc.Imp(!in(len(ann)), specEntry(n.md, k, old.Has(k), old.Get(k))) })
}

// ---- rendering ----

type encPair struct{ k, v string }

// What is written to the encoder, in order, and the annotations joined.
var encOut io.Writer
var encN int
var encPairs []encPair
var encFail bool
var joined []string
var joinSep string
var joinN int

//vc:extern github.com/go-logfmt/logfmt.NewEncoder
func extNewEncoder(w io.Writer) *logfmt.Encoder {
	encOut = w
	return new(logfmt.Encoder)
}

//vc:extern (*github.com/go-logfmt/logfmt.Encoder).EncodeKeyval
func extEncodeKeyval(e *logfmt.Encoder, k, v interface{}) error {
	ks, ok1 := k.(string)
	vs, ok2 := v.(string)
	if !ok1 || !ok2 {
		encFail = true
		return nil
	}
	if err := vc.Nondet[error]("logfmt"); err != nil {
		encFail = true
		return err
	}
	encPairs = append(encPairs, encPair{ks, vs})
	encN++
	encOut.Write([]byte("k=v"))
	return nil
}

//vc:extern strings.Join
func extJoin(s []string, sep string) string {
	joined = s
	joinSep = sep
	joinN++
	return strings.Join(s, sep)
}

func specSortedStrings(s []string) bool {
	return vc.Forall(0, len(s)-1, func(i int) bool { return s[i] <= s[i+1] })
}

func specRecorderEmpty() bool {
	return encN == 0 && encPairs == nil && !encFail && joinN == 0 && len(joined) == 0
}

//vc:contract MarshalText prop=C31 noreplay
func cMarshalPairs(m metadata, k string) {
	vc.Requires(specRecorderEmpty)
	old := vc.SnapMap(m)
	isKey := old.Has(k) && old.Get(k) != ""
	vc.Invariant("unchanged", func() bool { return specEntry(m, k, old.Has(k), old.Get(k)) })
	vc.Invariant("collected", func(keys []string, seen vc.Set[string]) bool {
		return vc.Imp(isKey && seen.Has(k), vc.Exists(0, len(keys), func(i int) bool { return keys[i] == k })) &&
			vc.Forall(0, len(keys), func(i int) bool { return keys[i] != k || isKey && seen.Has(k) })
	})
	vc.Invariant("encoded", func(i int, r []string) bool {
		return encN == i && len(encPairs) == i && !encFail && vc.Forall(0, i, func(j int) bool { return encPairs[j].k == r[j] && (r[j] != k || encPairs[j].v == old.Get(k)) })
	})
	vc.Modifies(&encOut, &encN, &encPairs, &encFail, &joined, &joinSep, &joinN)
	res, err := MarshalText(m)
	vc.Ensures("empty", func() bool { return vc.Imp(len(m) == 0, err == nil && len(res) == 0) })
	vc.Ensures("error", func() bool { return (err != nil) == encFail })
	vc.Ensures("sorted", func() bool {
		return vc.Forall(0, len(encPairs)-1, func(i int) bool { return encPairs[i].k <= encPairs[i+1].k })
	})
	vc.Ensures("every pair", func() bool {
		return vc.Imp(err == nil && isKey, vc.Exists(0, len(encPairs), func(i int) bool { return encPairs[i].k == k && encPairs[i].v == old.Get(k) }))
	})
	vc.Ensures("no other pair", func() bool {
		return vc.Forall(0, len(encPairs), func(i int) bool { return encPairs[i].k != k || isKey })
	})
}

//vc:contract MarshalText prop=C31 noreplay
func cMarshalAnnotations(m metadata, k string) {
	vc.Requires(specRecorderEmpty)
	old := vc.SnapMap(m)
	isAnn := old.Has(k) && old.Get(k) == ""
	vc.Invariant("unchanged", func() bool { return specEntry(m, k, old.Has(k), old.Get(k)) })
	vc.Invariant("collected", func(ann []string, seen vc.Set[string]) bool {
		return vc.Imp(isAnn && seen.Has(k), vc.Exists(0, len(ann), func(i int) bool { return ann[i] == "@"+k })) &&
			vc.Forall(0, len(ann), func(i int) bool { return ann[i] != "@"+k || isAnn && seen.Has(k) })
	})
	vc.Invariant("encoded", func() bool { return !encFail && joinN == 0 && len(joined) == 0 })
	vc.Modifies(&encOut, &encN, &encPairs, &encFail, &joined, &joinSep, &joinN)
	_, err := MarshalText(m)
	vc.Ensures("sorted", func() bool { return specSortedStrings(joined) })
	vc.Ensures("joined once", func() bool { return joinN <= 1 && (joinN == 0 || joinSep == " ") })
	vc.Ensures("every annotation", func() bool {
		return vc.Imp(err == nil && isAnn, vc.Exists(0, len(joined), func(i int) bool { return joined[i] == "@"+k }))
	})
	vc.Ensures("no other annotation", func() bool {
		return vc.Forall(0, len(joined), func(i int) bool { return joined[i] != "@"+k || isAnn })
	})
}

// ---- names as seen from other packages ----
//
// What a name renders as is a function of its parts (the rendering itself is proved above). The metadata of the name a
// copy is made of is the same throughout, so it is left out.

//vc:extern NewNameFrom when=names
func stubNewNameFrom(n Name) Name { return Name{name: n.name, md: make(map[string]string)} }

//vc:extern (Name).AddMetadata when=names
func stubAddMetadata(n Name, md map[string]string) {
	for _, k := range []string{"strategy", "type", "value"} {
		if v, ok := md[k]; ok {
			n.md[k] = v
		}
	}
	if len(md) != 3 {
		n.md["other"] = ""
	}
}

//vc:extern (Name).String when=names
func stubNameString(n Name) string {
	_, other := n.md["other"]
	return vc.UFStr("rendered", n.name, n.md["strategy"], n.md["type"], n.md["value"], other)
}

// RenderedBase and Rendered let contracts elsewhere speak about names.
func Rendered(n Name, strategy, typ, value string) string {
	return vc.UFStr("rendered", n.name, strategy, typ, value, false)
}
