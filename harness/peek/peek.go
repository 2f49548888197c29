// Package peek finds the private parts of layers and networks that the checks
// observe. Parts are found by type, never by name.
package peek

import (
	"reflect"
	"unsafe"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"

	"verifharness/vt"
)

// TopK is the number of coordinates the layers min-hash.
const TopK = 30

// stop lists the types that are not searched: what they hold belongs to them.
var stop = map[reflect.Type]bool{
	reflect.TypeOf(node.Node{}): true, reflect.TypeOf(lsh.LSH{}): true, reflect.TypeOf(wta_hash.WtaHash{}): true,
	reflect.TypeOf(densified_wta_hash.DensifiedWtaHash{}): true, reflect.TypeOf(densified_minhash.DensifiedMinhash{}): true,
	reflect.TypeOf(sparse_random_projection.SparseRandomProjection{}): true,
}

// field returns the only value of type T (not nil) within *s, looking through
// nested structs, pointers and interfaces.
func field[T any](s any) (T, bool) {
	var found []T
	want := reflect.TypeOf((*T)(nil)).Elem()
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	visit := func(f reflect.Value, depth int) {
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem() // readable although private
		if f.Type() == want {
			switch f.Kind() {
			case reflect.Pointer, reflect.Slice, reflect.Map:
				if f.IsNil() {
					return
				}
				if f.Kind() == reflect.Pointer {
					if seen[f.UnsafePointer()] {
						return
					}
					seen[f.UnsafePointer()] = true
				}
			}
			found = append(found, f.Interface().(T))
			return
		}
		walk(f, depth)
	}
	walk = func(v reflect.Value, depth int) {
		if depth > 4 || stop[v.Type()] {
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				visit(v.Field(i), depth+1)
			}
		case reflect.Pointer:
			if !v.IsNil() && v.Elem().Kind() == reflect.Struct && !seen[v.UnsafePointer()] {
				seen[v.UnsafePointer()] = true
				walk(v.Elem(), depth)
			}
		case reflect.Interface:
			if !v.IsNil() {
				c := reflect.New(v.Elem().Type())
				c.Elem().Set(v.Elem())
				visit(c.Elem(), depth)
			}
		case reflect.Array:
			for i := 0; i < v.Len() && i < 16; i++ {
				visit(v.Index(i), depth)
			}
		}
	}
	walk(reflect.ValueOf(s).Elem(), 0)
	if len(found) != 1 {
		var none T
		return none, false
	}
	return found[0], true
}

// Layers returns the layers of a network.
func Layers(n *network.Network) []*layer.Layer {
	ls, ok := field[[]*layer.Layer](n)
	if !ok {
		panic(vt.Unobservable("the layers of a network"))
	}
	return ls
}

// LSH returns the hash tables of a layer, or nil if they cannot be observed.
func LSH(l *layer.Layer) *lsh.LSH {
	t, _ := field[*lsh.LSH](l)
	return t
}

// HashPairs returns the codes of an input given as pairs, or nil if the
// hasher of the layer cannot be observed.
func HashPairs(l *layer.Layer, ps []index_value.Pair, dim int) []int {
	// hashed where it is, the content is put back
	keep := append([]index_value.Pair(nil), ps...)
	defer copy(ps, keep)
	switch configuration.Global.HashFunction {
	case configuration.WtaHashFunction:
		if h, ok := field[*wta_hash.WtaHash](l); ok && h != nil {
			return h.GetHash(ps)
		}
	case configuration.DensifiedWtaHashFunction:
		if h, ok := field[*densified_wta_hash.DensifiedWtaHash](l); ok && h != nil {
			return h.GetHash(ps)
		}
	case configuration.DensifiedMinhashFunction:
		if h, ok := field[*densified_minhash.DensifiedMinhash](l); ok && h != nil {
			return h.GetHashEasy(h.GetMap(dim), ps, TopK)
		}
	case configuration.SparseRandomProjectionHashFunction:
		if h, ok := field[*sparse_random_projection.SparseRandomProjection](l); ok && h != nil {
			return h.GetHashSparse(ps)
		}
	}
	return nil
}

// HasherID identifies the layer's current hasher (nil if it cannot be observed).
func HasherID(l *layer.Layer) any {
	switch configuration.Global.HashFunction {
	case configuration.WtaHashFunction:
		if h, ok := field[*wta_hash.WtaHash](l); ok {
			return h
		}
	case configuration.DensifiedWtaHashFunction:
		if h, ok := field[*densified_wta_hash.DensifiedWtaHash](l); ok {
			return h
		}
	case configuration.DensifiedMinhashFunction:
		if h, ok := field[*densified_minhash.DensifiedMinhash](l); ok {
			return h
		}
	case configuration.SparseRandomProjectionHashFunction:
		if h, ok := field[*sparse_random_projection.SparseRandomProjection](l); ok {
			return h
		}
	}
	return nil
}
