package sym

import "os"

// Show prints while a counterexample is replayed by hand (VERIF_SHOW).
func Show(s string) {
	if p := os.Getenv("VERIF_SHOW"); p != "" {
		f, _ := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		f.WriteString(s + "\n")
		f.Close()
	}
}
