package main

import (
	"strings"
)

// Independent reference for label and name spelling (RFC 4343 escapes as the package documents them).

func isUp(c byte) bool    { return c >= 'A' && c <= 'Z' }
func isLow(c byte) bool   { return c >= 'a' && c <= 'z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func upByte(c byte) byte {
	if isLow(c) {
		return c - 32
	}
	return c
}
func upBytes(b []byte) []byte {
	o := make([]byte, len(b))
	for i, c := range b {
		o[i] = upByte(c)
	}
	return o
}

func ddd(c byte) string {
	return string([]byte{'\\', '0' + c/100, '0' + c/10%10, '0' + c%10})
}

// humanByte is the canonical human-readable form of one byte.
func humanByte(c byte) string {
	switch {
	case c == '.' || c == '\\':
		return "\\" + string([]byte{c})
	case c < '!' || c > '~':
		return ddd(c)
	case isUp(c):
		return string([]byte{c + 32})
	}
	return string([]byte{c})
}

func humanLabel(b []byte) string {
	var sb strings.Builder
	for _, c := range b {
		sb.WriteString(humanByte(c))
	}
	return sb.String()
}

// spellLabel gives one of many spellings of an upper-cased binary label; w == 0 is the canonical one.
func spellLabel(b []byte, r *rnd) string {
	if r == nil {
		return humanLabel(b)
	}
	var sb strings.Builder
	style := r.n(5)
	for _, c := range b {
		k := r.n(8)
		switch style {
		case 0:
			k = 0
		case 1:
			k = 7
		}
		d := c
		if isUp(c) && k&1 == 1 {
			d = c + 32
		}
		switch {
		case k >= 6: // decimal escape of either case
			sb.WriteString(ddd(d))
		case c == '.' || c == '\\':
			sb.WriteByte('\\')
			sb.WriteByte(c)
		case k >= 4 && !isDigit(c): // character escape
			sb.WriteByte('\\')
			sb.WriteByte(d)
		default:
			sb.WriteByte(d)
		}
	}
	return sb.String()
}

// spellName spells a name whose labels are given top-level first.
func spellName(labels []BS, w uint64) string {
	var r *rnd
	if w != 0 {
		r = &rnd{w}
	}
	if len(labels) == 0 {
		if w&1 == 1 {
			return "."
		}
		return ""
	}
	var sb strings.Builder
	for i := len(labels) - 1; i >= 0; i-- {
		sb.WriteString(spellLabel(labels[i], r))
		if i > 0 {
			sb.WriteByte('.')
		}
	}
	if r != nil && r.n(3) == 0 {
		sb.WriteByte('.')
	}
	return sb.String()
}

// Errors by name, as sets.
const (
	eTooMany = 1 << iota
	eEmpty
	eLabel
	eName
	eEscape
)

// parseRef parses a name by the documented rules: the labels (top-level first, upper-cased) or the set of
// violated conditions.
func parseRef(s string) (labels []BS, bad int) {
	if s == "" || s == "." {
		return nil, 0
	}
	var rev []BS
	cur := BS{}
	open := false // the current label has some text
	total := 0
	closeLabel := func() {
		if !open {
			bad |= eEmpty
		}
		if len(cur) > 63 {
			bad |= eLabel
		}
		total += len(cur) + 1
		rev = append(rev, cur)
		cur, open = BS{}, false
	}
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '.' {
			closeLabel()
			i++
			continue
		}
		open = true
		if c != '\\' {
			cur = append(cur, upByte(c))
			i++
			continue
		}
		if i+1 >= len(s) {
			bad |= eEscape
			break
		}
		if !isDigit(s[i+1]) {
			cur = append(cur, upByte(s[i+1]))
			i += 2
			continue
		}
		if i+3 >= len(s) || !isDigit(s[i+2]) || !isDigit(s[i+3]) {
			bad |= eEscape
			break
		}
		v := int(s[i+1]-'0')*100 + int(s[i+2]-'0')*10 + int(s[i+3]-'0')
		if v > 255 {
			bad |= eEscape
			break
		}
		cur = append(cur, upByte(byte(v)))
		i += 4
	}
	if open {
		closeLabel()
	}
	if len(rev) > 127 {
		bad |= eTooMany
	}
	if total > 255 {
		bad |= eName
	}
	if bad != 0 {
		return nil, bad
	}
	for j := len(rev) - 1; j >= 0; j-- {
		labels = append(labels, rev[j])
	}
	return labels, 0
}

// parseLabelRef decodes one label spelling: bytes upper-cased, ok=false when it must be refused.
// dots=true when an unescaped dot occurs before the end (outside the documented domain).
func parseLabelRef(s string) (label BS, bad int, dots bool) {
	label = BS{}
	for i := 0; i < len(s); {
		c := s[i]
		if c == '.' {
			if i < len(s)-1 {
				return nil, bad, true
			}
			break
		}
		if c != '\\' {
			label = append(label, upByte(c))
			i++
			continue
		}
		if i+1 >= len(s) {
			bad |= eEscape
			break
		}
		if !isDigit(s[i+1]) {
			label = append(label, upByte(s[i+1]))
			i += 2
			continue
		}
		if i+3 >= len(s) || !isDigit(s[i+2]) || !isDigit(s[i+3]) {
			bad |= eEscape
			break
		}
		v := int(s[i+1]-'0')*100 + int(s[i+2]-'0')*10 + int(s[i+3]-'0')
		if v > 255 {
			bad |= eEscape
			break
		}
		label = append(label, upByte(byte(v)))
		i += 4
	}
	if len(label) > 63 {
		bad |= eLabel
	}
	return label, bad, false
}
