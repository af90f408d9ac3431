package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// dump writes any value out completely, following pointers, so that equal
// dumps mean equal content.  Nil and empty slices look the same.
func dump(v any) string {
	var b strings.Builder
	dumpTo(&b, reflect.ValueOf(v), "", map[string]bool{}, true)
	return b.String()
}

var dumpSkip = map[string]bool{"SourceAddr": true}

func dumpTo(b *strings.Builder, v reflect.Value, path string, skip map[string]bool, top bool) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "%s type %v\n", path, v.Elem().Type())
		}
		dumpTo(b, v.Elem(), path, skip, false)
	case reflect.Struct:
		t := v.Type()
		// Linked lists are flattened: Next continues with an index.
		if f := v.FieldByName("Next"); f.IsValid() && f.Kind() == reflect.Ptr {
			i := 0
			for cur := v; ; i++ {
				p := fmt.Sprintf("%s[%d]", path, i)
				fmt.Fprintf(b, "%s\n", p)
				for k := 0; k < t.NumField(); k++ {
					if t.Field(k).Name != "Next" {
						dumpTo(b, cur.Field(k), p+"."+t.Field(k).Name, skip, false)
					}
				}
				n := cur.FieldByName("Next")
				if n.IsNil() || i > 100000 {
					return
				}
				cur = n.Elem()
			}
		}
		fmt.Fprintf(b, "%s{}\n", path)
		for k := 0; k < t.NumField(); k++ {
			n := t.Field(k).Name
			if dumpSkip[n] || t.Field(k).PkgPath != "" {
				continue
			}
			dumpTo(b, v.Field(k), path+"."+n, skip, false)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice && v.Len() > 0 {
				fmt.Fprintf(b, "%s = %q\n", path, v.Bytes())
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			dumpTo(b, v.Index(i), fmt.Sprintf("%s[%d]", path, i), skip, false)
		}
	case reflect.String:
		if v.Len() > 0 {
			fmt.Fprintf(b, "%s = %q\n", path, v.String())
		}
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprint(k))
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "%s = %v\n", path, ks)
	default:
		if !v.IsZero() {
			fmt.Fprintf(b, "%s = %v\n", path, v.Interface())
		}
	}
}

// diff shows the lines in which two dumps differ.
func diff(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	count := map[string]int{}
	for _, l := range w {
		count[l]++
	}
	for _, l := range g {
		count[l]--
	}
	var b strings.Builder
	n := 0
	for _, l := range w {
		if count[l] > 0 {
			count[l]--
			fmt.Fprintf(&b, "  want: %s\n", l)
			if n++; n > 20 {
				break
			}
		}
	}
	n = 0
	for i := len(g) - 1; i >= 0; i-- {
		if l := g[i]; count[l] < 0 {
			count[l]++
			fmt.Fprintf(&b, "  got:  %s\n", l)
			if n++; n > 20 {
				break
			}
		}
	}
	if b.Len() == 0 {
		return "  (same lines in a different order)\n"
	}
	return b.String()
}
