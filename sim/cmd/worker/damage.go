package main

import "verif.local/sim/model"

// damage corrupts a document the way storage and networks do: n faults.
func damage(r *model.Rng, s string, n int) string {
	b := []byte(s)
	for ; n > 0; n-- {
		if len(b) == 0 {
			return string(b)
		}
		at := r.N(len(b))
		end := at + r.LogN(len(b)-at)
		if end > len(b) {
			end = len(b)
		}
		switch r.N(12) {
		case 0: // bit flip
			b[at] ^= 1 << uint(r.N(8))
		case 1: // byte lost
			b = append(b[:at:at], b[at+1:]...)
		case 2: // range lost
			b = append(b[:at:at], b[end:]...)
		case 3: // range duplicated
			b = append(b[:end:end], b[at:]...)
		case 4: // zeroed block (torn write)
			for i := at; i < end; i++ {
				b[i] = 0
			}
		case 5: // blocks swapped
			m := r.N(len(b))
			b = append(append([]byte{}, b[m:]...), b[:m]...)
		case 6, 7: // structural byte appears
			b = append(b[:at:at], append([]byte{"\"\\{}[],: \t09-e"[r.N(14)]}, b[at:]...)...)
		case 8: // structural byte replaced
			b[at] = "\"\\{}[],: \n1tfn"[r.N(14)]
		case 9: // truncated
			b = b[:at]
		case 10: // head lost
			b = b[at:]
		case 11: // a structural byte of the document removed
			for k := 0; k < len(b); k++ {
				i := (at + k) % len(b)
				if c := b[i]; c == '"' || c == '{' || c == '}' || c == '[' || c == ']' || c == ',' || c == ':' || c == '\\' {
					b = append(b[:i:i], b[i+1:]...)
					break
				}
			}
		}
		if len(b) > 20000 {
			b = b[:20000]
		}
	}
	return string(b)
}
