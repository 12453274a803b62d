// Package models holds plain Go replacements for assembly or unsafe standard library leaves.
package models

import (
	"encoding/json"
	"io"
	"unicode/utf8"
)

func IndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func CountBytes(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func IndexBytes(a, b []byte) int { return IndexString(string(a), string(b)) }

func IndexString(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func LastIndexString(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func CompareBytes(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return -1
		}
		if a[i] > b[i] {
			return 1
		}
	}
	return len(a) - len(b)
}

func EqualBytes(a, b []byte) bool { return string(a) == string(b) }

// encoding/json, of strings only

type jsonEncoder struct {
	w    io.Writer
	html bool
}

var jsonEncoders = map[*json.Encoder]*jsonEncoder{}

func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := &json.Encoder{}
	jsonEncoders[e] = &jsonEncoder{w, true}
	return e
}

func JSONSetEscapeHTML(e *json.Encoder, on bool) { jsonEncoders[e].html = on }

func JSONEncode(e *json.Encoder, v any) error {
	x := jsonEncoders[e]
	_, err := x.w.Write(append(jsonString(v.(string), x.html), '\n'))
	return err
}

func JSONMarshal(v any) ([]byte, error) { return jsonString(v.(string), true), nil }

const hexDigits = "0123456789abcdef"

func jsonString(s string, html bool) []byte {
	b := []byte{'"'}
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				b = append(b, '\\', c)
			case c == '\b':
				b = append(b, '\\', 'b')
			case c == '\f':
				b = append(b, '\\', 'f')
			case c == '\n':
				b = append(b, '\\', 'n')
			case c == '\r':
				b = append(b, '\\', 'r')
			case c == '\t':
				b = append(b, '\\', 't')
			case c < 0x20 || html && (c == '<' || c == '>' || c == '&'):
				b = append(b, '\\', 'u', '0', '0', hexDigits[c>>4], hexDigits[c&0xf])
			default:
				b = append(b, c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, "\\ufffd"...)
		} else if r == 0x2028 || r == 0x2029 {
			b = append(b, "\\u202"...)
			b = append(b, hexDigits[r&0xf])
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return append(b, '"')
}
