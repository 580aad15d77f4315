package checks

import "unicode"

func lower(r rune) rune { return unicode.ToLower(r) }
func upper(r rune) rune { return unicode.ToUpper(r) }

// refMatch: the characters of q appear in s in order (by dynamic programming, not greedily).
func refMatch(s, q string, fold bool) bool {
	sr, qr := []rune(s), []rune(q)
	if fold {
		for i := range sr {
			sr[i] = lower(sr[i])
		}
		for i := range qr {
			qr[i] = lower(qr[i])
		}
	}
	m := make([][]bool, len(sr)+1)
	for i := range m {
		m[i] = make([]bool, len(qr)+1)
		m[i][0] = true
		for j := 1; j <= len(qr) && i > 0; j++ {
			m[i][j] = m[i-1][j] || (m[i-1][j-1] && (sr[i-1] == qr[j-1] || lower(sr[i-1]) == qr[j-1]))
		}
	}
	return m[len(sr)][len(qr)]
}
