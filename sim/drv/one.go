package main

import "os"

func init() {
	if f := os.Getenv("VERIF_FORM"); f != "" {
		forms = []string{f, f, f, f}
		subForms = []string{"direct"}
	}
}
