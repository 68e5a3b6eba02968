// Package models holds Go models of run-time operations for the symbolic executor.
package models

import (
	"sort"
	"unicode/utf8"
)

func StringToRunes(s string) []rune {
	var a []rune
	for _, r := range s {
		a = append(a, r)
	}
	return a
}

func RunesToString(a []rune) string {
	var b []byte
	for _, r := range a {
		b = utf8.AppendRune(b, r)
	}
	return string(b)
}

func RuneToString(r rune) string { return string(utf8.AppendRune(nil, r)) }

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int { return LastIndexByte([]byte(s), c) }

func Count(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int { return Count([]byte(s), c) }

func Index(a, b []byte) int { return IndexString(string(a), string(b)) }

func IndexString(a, b string) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if a[i:i+len(b)] == b {
			return i
		}
	}
	return -1
}

func Equal(a, b []byte) bool { return string(a) == string(b) }

func Compare(a, b []byte) int { return CompareString(string(a), string(b)) }

func CompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}

func ErrorsIs(err, target error) bool {
	for {
		if err == nil || target == nil {
			return err == target
		}
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsIs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type fmtError struct{ s string }

func (e *fmtError) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

// Errorf keeps the wrapped error; the text is not formatted.
func Errorf(format string, args ...interface{}) error {
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' && format[i+1] == 'w' {
			for _, a := range args {
				if e, ok := a.(error); ok {
					return &wrapError{format, e}
				}
			}
		}
	}
	return &fmtError{format}
}

type lessSwap struct {
	n    int
	less func(i, j int) bool
	swap func(i, j int)
}

func (x lessSwap) Len() int           { return x.n }
func (x lessSwap) Less(i, j int) bool { return x.less(i, j) }
func (x lessSwap) Swap(i, j int)      { x.swap(i, j) }

func SortSlice(n int, less func(i, j int) bool, swap func(i, j int)) { sort.Sort(lessSwap{n, less, swap}) }
func SortSliceStable(n int, less func(i, j int) bool, swap func(i, j int)) {
	sort.Stable(lessSwap{n, less, swap})
}
