package main

import "go/types"

// Capacity of grown slices as the runtime computes it: programs can observe
// it through elements shared by slices that were appended to.

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024,
	1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432,
	19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupSize(n int, pointers bool) int {
	if n == 0 {
		return 0
	}
	h := 0
	if pointers && n > 512 {
		h = 8
	}
	if n+h <= 32768-1024 || n+h <= 32768 {
		for _, c := range sizeClasses {
			if n+h <= c {
				return c - h
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(old, need, size int, pointers bool) int {
	n := old
	if need > 2*old {
		n = need
	} else if old < 256 {
		n = 2 * old
	} else {
		for n < need {
			n += (n + 3*256) >> 2
		}
	}
	if size == 0 {
		return need
	}
	return roundupSize(n*size, pointers) / size
}

var gcSizes = types.SizesFor("gc", "amd64")

func elemLayout(t types.Type) (size int, pointers bool) {
	defer func() {
		if recover() != nil {
			size, pointers = 8, true
		}
	}()
	return int(gcSizes.Sizeof(t)), hasPointers(t)
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Array:
		return u.Len() > 0 && hasPointers(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}
