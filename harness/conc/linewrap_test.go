//go:build linebreak

package conc

import (
	"fmt"

	"github.com/npillmayer/uax"
	"github.com/npillmayer/uax/uax14"
)

func init() {
	newLineWrap = func() uax.UnicodeBreaker { return uax14.NewLineWrap() }
	lineSetup = uax14.SetupClasses
	lineClass = func(r rune) string { return fmt.Sprint(int(uax14.ClassForRune(r)), " ") }
}
