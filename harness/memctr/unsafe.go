package memctr

import "unsafe"

func unsafeSlice(b []byte, n int) []byte {
	return unsafe.Slice(unsafe.SliceData(b), n)
}
